SPECIFICATION Spec
CONSTANTS N = 6
 Parts = 3
 ReplaceWhenFirstPart = TRUE
INVARIANTS InPart NothingOld Counted Bounded
