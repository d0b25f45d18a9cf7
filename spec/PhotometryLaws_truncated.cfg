SPECIFICATION Spec
CONSTANT Floored = FALSE
INVARIANTS BoxCovers
CHECK_DEADLOCK FALSE
