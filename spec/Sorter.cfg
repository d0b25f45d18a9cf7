CONSTANTS
  NGroups = 5
  MaxSize = 3
SPECIFICATION Spec
INVARIANTS Prefix Complete
