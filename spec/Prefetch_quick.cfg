CONSTANTS
  Workers = {w1, w2}
  NSources = 3
  SignalAfter = {2}
  MaxQueue = 2
  Addrs = {1, 2, 3}
  EraseBeforeSend = TRUE
SPECIFICATION Spec
INVARIANTS NothingLost Bounded InOrder
PROPERTIES Refines EventuallyDone
