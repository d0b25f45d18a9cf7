CONSTANTS NS = 4
 NSteps = 3
SPECIFICATION DSpec
INVARIANT Conserved
INVARIANT Disjoint
INVARIANT Identities
INVARIANT Anchored
INVARIANT NoNew
CHECK_DEADLOCK FALSE
