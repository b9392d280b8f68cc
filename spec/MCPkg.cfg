SPECIFICATION Spec
CONSTANTS H = 2 MaxOps = 3 Vals = {0, 255, 258}
INVARIANTS InBody NothingLeft Patch
CHECK_DEADLOCK FALSE
