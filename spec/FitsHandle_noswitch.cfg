SPECIFICATION Spec
CONSTANTS Hdus = {1, 2, 3, 4}
 FirstImage = 2
 Images = {2, 4}
 Srcs = {1, 2, 3}
 Switch = FALSE
 Fresh = TRUE
 MaxHandles = 2
 MaxOps = 6
INVARIANT Place
CHECK_DEADLOCK FALSE
