SPECIFICATION Spec
CONSTANTS Depth = 5 FirstOnly = FALSE
INVARIANTS Registered Reached Ordered OneEach
PROPERTIES SplitKeeps SplitSorts Frozen Grows
