SPECIFICATION Spec
CONSTANTS Hdus = {1, 2, 3, 4}
 FirstImage = 2
 Images = {2, 4}
 Srcs = {1, 2, 3}
 Switch = TRUE
 Fresh = FALSE
 MaxHandles = 2
 MaxOps = 6
INVARIANT Bound
CHECK_DEADLOCK FALSE
