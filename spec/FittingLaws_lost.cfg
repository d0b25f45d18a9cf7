CONSTANT WriteBack = FALSE
SPECIFICATION Spec
INVARIANT ResultKept
