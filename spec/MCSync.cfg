SPECIFICATION Spec
CONSTANTS
  Prod = {1, 2}
  Cons = {3, 4}
  Rw = {}
  MaxNow = 2
INVARIANTS InMonitor RwExclusive Exclusive
PROPERTIES AllServed RwServed NoSleepers
CHECK_DEADLOCK FALSE
