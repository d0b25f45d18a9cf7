CONSTANTS N = 5
Vals = {0, 1}
Refresh = TRUE
Forget = TRUE
SPECIFICATION Spec
INVARIANTS Right DeadNotTold
