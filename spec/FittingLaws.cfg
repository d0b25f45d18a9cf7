CONSTANT WriteBack = TRUE
SPECIFICATION Spec
INVARIANT ResultKept
PROPERTY Improves
