SPECIFICATION Spec
CONSTANTS Variant = "none"
INVARIANTS Flat Between Masked Scaled Point One
