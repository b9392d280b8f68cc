SPECIFICATION Spec
CONSTANTS
  Prod = {p1, p2}
  Cons = {c1, c2}
  Items = 3
  Caps = {1, 2, 3}
INVARIANTS Bounded Fifo
PROPERTY AllThrough
CHECK_DEADLOCK FALSE
