CONSTANTS NS = 2
 NG = 2
 Depth = 7
SPECIFICATION Spec
INVARIANT Fresh
INVARIANT Once
INVARIANT Missing
INVARIANT LastSet
PROPERTY Survive
CHECK_DEADLOCK FALSE
