SPECIFICATION Spec
CONSTANTS
 Pairs = FALSE
 FlushSize = 0
 Sorted = TRUE
 SyncPrefetch = TRUE
 SyncMeasure = TRUE
 FlushPart = TRUE
 Frames <- F212
INVARIANTS Parts Together Numbers Complete
PROPERTY Ends
CHECK_DEADLOCK TRUE
