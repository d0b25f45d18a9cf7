CONSTANTS
  Workers = {w1, w2}
  NSources = 4
  SignalAfter = {2, 4}
  MaxQueue = 2
  Addrs = {1, 2, 3, 4}
  EraseBeforeSend = TRUE
SPECIFICATION Spec
INVARIANTS NothingLost Bounded InOrder
PROPERTIES Refines EventuallyDone
