SPECIFICATION Spec
CONSTANT Centred = TRUE
INVARIANTS Shifted Turned Mirrored Possible Scaled Counting Line Magnitudes
CHECK_DEADLOCK FALSE
