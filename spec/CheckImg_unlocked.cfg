CONSTANTS
 Painters = {1, 2}
 Pixels = {0, 1, 2, 3}
 Shapes <- Few
 Locked = FALSE
SPECIFICATION Spec
INVARIANTS Shown
CHECK_DEADLOCK FALSE
