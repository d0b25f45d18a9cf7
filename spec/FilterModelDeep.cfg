SPECIFICATION Spec
CONSTANTS MaxW = 14 MaxK = 12 Slack = 5 Variant = "none"
INVARIANTS Seamless Same Room
