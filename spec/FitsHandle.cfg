SPECIFICATION Spec
CONSTANTS Hdus = {1, 2, 3, 4}
 FirstImage = 2
 Images = {2, 4}
 Srcs = {1, 2, 3}
 Switch = TRUE
 Fresh = TRUE
 MaxHandles = 2
 MaxOps = 6
INVARIANTS Bound Place
CHECK_DEADLOCK FALSE
