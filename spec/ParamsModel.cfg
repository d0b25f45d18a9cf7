CONSTANTS N = 4
Vals = {0, 1}
Refresh = TRUE
Forget = TRUE
SPECIFICATION Spec
INVARIANTS Right DeadNotTold
