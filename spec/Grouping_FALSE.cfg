CONSTANTS
  N = 4
  Limits = {0, 1, 2, 3}
  Spill = FALSE
SPECIFICATION Spec
INVARIANTS Conforms ExactlyOnce WithinLimit Closure
