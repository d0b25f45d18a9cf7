SPECIFICATION Spec
CONSTANTS
 W = 3
 H = 2
 Values = {0, 6}
 Boxes = {1, 2, 3}
 Shifted = TRUE
 First = FALSE
INVARIANTS SmoothMirrors
