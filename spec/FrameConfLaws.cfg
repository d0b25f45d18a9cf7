SPECIFICATION Spec
CONSTANT ScaleLimit = TRUE
INVARIANTS SameBad Relative Agree Units Electrons Saturated Fill
