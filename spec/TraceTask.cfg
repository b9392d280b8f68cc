SPECIFICATION TSpec
CONSTRAINT Mark
INVARIANT Bounded
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
