SPECIFICATION Spec
CONSTANTS NW = 2  Conns = {1, 2, 3}  Max = 2  Timers = 0  Msgs = 0
INVARIANTS OneWorker InTurn NoServiceForRefused Limit
CHECK_DEADLOCK FALSE
