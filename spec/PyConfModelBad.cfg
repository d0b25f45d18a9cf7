SPECIFICATION Spec
CONSTANTS Depth = 4 FirstOnly = TRUE
INVARIANT Reached
