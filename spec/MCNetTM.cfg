SPECIFICATION Spec
CONSTANTS NW = 2  Conns = {}  Max = 2  Timers = 2  Msgs = 3
INVARIANTS TimersOfTheirWorker MsgsOfTheirWorker
CHECK_DEADLOCK FALSE
