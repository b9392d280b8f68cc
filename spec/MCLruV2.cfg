SPECIFICATION Spec
CONSTANTS
  K = {1, 2, 3}
  V = {1, 2}
  X = {0, 1}
  Caps = {0, 1, 3}
  MaxNow = 1
  MaxParts = 2
  MaxBatch = 2
  Parts <- P
INVARIANTS Seen GetAnswered
CHECK_DEADLOCK FALSE
