SPECIFICATION Spec
CONSTANTS Depth = 4 FirstOnly = FALSE
INVARIANTS Registered Reached Ordered OneEach
PROPERTIES SplitKeeps SplitSorts Frozen Grows
