CONSTANTS
  Workers = {w1, w2, w3}
  NGroups = 4
  IdleWakes = FALSE
  SyncAfter = {2}
  CheckOrder = "queued_first"
SPECIFICATION Spec
INVARIANTS NothingLost SyncMeansDelivered LockDiscipline OnceEach
PROPERTIES EventuallyDone
