SPECIFICATION Spec
CONSTANTS
  N = 5
  Workers = 2
  Max = 2
INVARIANTS Bounded Order Once
PROPERTY EachDone
CHECK_DEADLOCK FALSE
