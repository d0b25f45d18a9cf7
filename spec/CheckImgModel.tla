--------------------------- MODULE CheckImgModel ---------------------------
EXTENDS CheckImg, TLC
Few == {{}, {0}, {1, 2}, {0, 1, 3}, {2, 3}}
All == SUBSET (0..3)
=============================================================================
