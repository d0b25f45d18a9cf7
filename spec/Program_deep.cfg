SPECIFICATION Spec
CONSTANTS
 Pairs = FALSE
 FlushSize = 2
 Sorted = TRUE
 SyncPrefetch = TRUE
 SyncMeasure = TRUE
 FlushPart = TRUE
 Frames <- F765
INVARIANTS Parts Together Numbers Complete
PROPERTY Ends
CHECK_DEADLOCK TRUE
