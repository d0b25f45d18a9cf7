SPECIFICATION Spec
CONSTANTS
 W = 3
 H = 2
 Values = {0, 6}
 Boxes = {1, 2, 3}
 Shifted = FALSE
 First = FALSE
INVARIANTS NothingUndefined Between BoxOfOne Corners FillMirrors SmoothMirrors
