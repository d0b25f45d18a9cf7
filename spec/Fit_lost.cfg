SPECIFICATION Spec
CONSTANTS Sources = {1, 2}  Frames = {1, 2}  Rounds = 4  KeepFlags = FALSE  Renew = TRUE
INVARIANTS Told
