SPECIFICATION Spec
CONSTANTS Bytes = 3 Horizon = 8 To = 2
INVARIANTS InOrder Answer
CHECK_DEADLOCK FALSE
