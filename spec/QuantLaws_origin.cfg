SPECIFICATION Spec
CONSTANT Centred = FALSE
INVARIANT Shifted
CHECK_DEADLOCK FALSE
