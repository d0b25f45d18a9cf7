CONSTANTS
  Workers = {w1, w2, w3}
  NGroups = 4
  IdleWakes = TRUE
  SyncAfter = {2}
  CheckOrder = "running_first"
SPECIFICATION Spec
INVARIANTS NothingLost SyncMeansDelivered LockDiscipline OnceEach
