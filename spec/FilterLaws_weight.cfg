SPECIFICATION Spec
CONSTANTS Variant = "weight"
INVARIANTS Flat
