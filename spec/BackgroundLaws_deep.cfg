SPECIFICATION Spec
CONSTANTS
 W = 3
 H = 2
 Values = {0, 2, 6}
 Boxes = {0, 1, 2, 3, 5}
 Shifted = FALSE
 First = FALSE
INVARIANTS NothingUndefined Between BoxOfOne Corners FillMirrors SmoothMirrors
