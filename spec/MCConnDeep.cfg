SPECIFICATION Spec
CONSTANTS Bytes = 4 Horizon = 10 To = 2
INVARIANTS InOrder Answer
CHECK_DEADLOCK FALSE
