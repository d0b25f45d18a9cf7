SPECIFICATION Spec
CONSTANTS MaxW = 7 MaxK = 7 Slack = 3 Variant = "centre"
INVARIANTS Same
