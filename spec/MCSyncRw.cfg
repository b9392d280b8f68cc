SPECIFICATION Spec
CONSTANTS
  Prod = {}
  Cons = {}
  Rw = {5, 6, 7}
  MaxNow = 2
INVARIANTS InMonitor RwExclusive Exclusive
PROPERTIES AllServed RwServed NoSleepers
CHECK_DEADLOCK FALSE
