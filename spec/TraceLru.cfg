SPECIFICATION TSpec
CONSTANT MaxBatch = 50
CONSTRAINT Mark
INVARIANTS Bounded Consistent
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
