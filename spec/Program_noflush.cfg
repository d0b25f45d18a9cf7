SPECIFICATION Spec
CONSTANTS
 Pairs = TRUE
 FlushSize = 2
 Sorted = TRUE
 SyncPrefetch = TRUE
 SyncMeasure = TRUE
 FlushPart = FALSE
 Frames <- F302
INVARIANT Parts
CHECK_DEADLOCK TRUE
