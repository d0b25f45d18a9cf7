CONSTANT Missing = {}
SPECIFICATION Spec
INVARIANTS Printable Complete Invertible
