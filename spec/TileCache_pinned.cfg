CONSTANTS Tiles = {1, 2}
 MaxWrites = 3
 MaxCopies = 5
 Policy = "pinned"
 Room = 0
SPECIFICATION Spec
INVARIANT Reads
INVARIANT Flushed
CHECK_DEADLOCK FALSE
