CONSTANTS
 Painters = {1, 2, 3}
 Pixels = {0, 1, 2, 3}
 Shapes <- Few
 Locked = TRUE
SPECIFICATION Spec
INVARIANTS Shown Honest
CHECK_DEADLOCK FALSE
