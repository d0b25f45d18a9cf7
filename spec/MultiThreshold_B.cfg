SPECIFICATION Spec
INVARIANTS Disjoint Found
CONSTANTS W = 2
H = 3
MinA = 1
CP = 1
CQ = 20
Values = {5, 9, 17, 40, 64}
