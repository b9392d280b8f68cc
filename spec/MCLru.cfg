SPECIFICATION Spec
CONSTANTS
  MaxBatch = 2
  K = {1, 2, 3, 4}
  V = {1, 2}
  X = {0, 1}
  Caps = {0, 1, 2, 3}
  MaxNow = 3
  GenOn = FALSE
VIEW View
INVARIANTS Bounded Consistent GetIsLatest
PROPERTY EvictionOrderP
CHECK_DEADLOCK FALSE
