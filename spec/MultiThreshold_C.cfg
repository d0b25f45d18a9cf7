SPECIFICATION Spec
INVARIANTS Disjoint Found
CONSTANTS W = 2
H = 3
MinA = 2
CP = 0
CQ = 1
Values = {5, 9, 17, 40, 64}
