SPECIFICATION Spec
CONSTANT Floored = TRUE
INVARIANTS BoxCovers AreaRight Involution Ones
PROPERTY Grows
CHECK_DEADLOCK FALSE
