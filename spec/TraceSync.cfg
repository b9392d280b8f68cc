SPECIFICATION TSpec
CONSTANT Slack = 2000
CONSTRAINT Mark
INVARIANT Exclusive
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
