SPECIFICATION Spec
CONSTANTS
  MaxBatch = 50
  K = {1, 2, 3}
  V = {1, 2}
  X = {0, 1}
  Caps = {0, 1, 2}
  MaxNow = 2
  GenOn = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Bounded Consistent
CHECK_DEADLOCK FALSE
