CONSTANTS
  Grid = {0, 1, 3}
  Scale = 256
  Cap = 2
  MaxOps = 4
  Prune = "box"
  Ranges = {0, 200, 256, 400}
SPECIFICATION Spec
INVARIANT Exact
