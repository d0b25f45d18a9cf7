SPECIFICATION Spec
CONSTANTS N = 6
 Parts = 3
 ReplaceWhenFirstPart = FALSE
INVARIANTS InPart NothingOld Counted Bounded
