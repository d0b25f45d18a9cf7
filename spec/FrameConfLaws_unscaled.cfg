SPECIFICATION Spec
CONSTANT ScaleLimit = FALSE
INVARIANT SameBad
