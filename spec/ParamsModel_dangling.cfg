CONSTANTS N = 3
Vals = {0, 1}
Refresh = TRUE
Forget = FALSE
SPECIFICATION Spec
INVARIANTS DeadNotTold
