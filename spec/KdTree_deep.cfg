SPECIFICATION Spec
CONSTANTS
  Size = 2
  Points = 4
  Leaf = 1
  Radii = {1, 2, 3}
  Flaw = "none"
INVARIANTS
  Whole
  Exact
  Ordered
CHECK_DEADLOCK FALSE
