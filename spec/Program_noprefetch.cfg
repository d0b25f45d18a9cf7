SPECIFICATION Spec
CONSTANTS
 Pairs = TRUE
 FlushSize = 2
 Sorted = TRUE
 SyncPrefetch = FALSE
 SyncMeasure = TRUE
 FlushPart = TRUE
 Frames <- F302
INVARIANT Parts
CHECK_DEADLOCK TRUE
