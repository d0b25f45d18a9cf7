CONSTANTS N = 3
Vals = {0, 1}
Refresh = FALSE
Forget = TRUE
SPECIFICATION Spec
INVARIANTS Right
