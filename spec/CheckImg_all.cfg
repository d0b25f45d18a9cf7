CONSTANTS
 Painters = {1, 2}
 Pixels = {0, 1, 2, 3}
 Shapes <- All
 Locked = TRUE
SPECIFICATION Spec
INVARIANTS Shown Honest
CHECK_DEADLOCK FALSE
