SPECIFICATION TSpec
CONSTRAINT Mark
INVARIANT V2Sound
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
