SPECIFICATION Spec
CONSTANTS
  Cons = 2
  Workers = 2
  Max = 1
  N = 3
  Errs = TRUE
  Sizes = {1}
INVARIANTS Bounded ToAsker Once Excl Settled BadNever
CHECK_DEADLOCK FALSE
