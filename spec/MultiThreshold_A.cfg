SPECIFICATION Spec
INVARIANTS Disjoint Found
CONSTANTS W = 1
H = 6
MinA = 1
CP = 0
CQ = 1
Values = {5, 9, 17, 40, 64}
