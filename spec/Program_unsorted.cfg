SPECIFICATION Spec
CONSTANTS
 Pairs = TRUE
 FlushSize = 1
 Sorted = FALSE
 SyncPrefetch = TRUE
 SyncMeasure = TRUE
 FlushPart = TRUE
 Frames <- F302
INVARIANTS Parts Together Numbers Complete
PROPERTY Ends
CHECK_DEADLOCK TRUE
