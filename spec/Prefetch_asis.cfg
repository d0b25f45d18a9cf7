CONSTANTS
  Workers = {w1, w2}
  NSources = 4
  SignalAfter = {2, 4}
  MaxQueue = 2
  Addrs = {1, 2, 3}
  EraseBeforeSend = FALSE
SPECIFICATION Spec
PROPERTIES EventuallyDone

