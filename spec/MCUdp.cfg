SPECIFICATION Spec
INVARIANTS Once Whole SentOnce
CHECK_DEADLOCK FALSE
