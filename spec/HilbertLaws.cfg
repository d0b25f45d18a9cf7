CONSTANT MaxN = 6
SPECIFICATION Spec
INVARIANTS Visits Neighbours Ends
