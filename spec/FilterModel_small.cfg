SPECIFICATION Spec
CONSTANTS MaxW = 7 MaxK = 7 Slack = 3 Variant = "small"
INVARIANTS Same
