SPECIFICATION Spec
CONSTANT Limit = 5
CONSTANT N = 3
CONSTANT Cap = 4
CONSTANT Sizes = {1, 2, 4, 5}
CONSTANT MaxLines = 8
INVARIANTS NothingLost Files OnlyOldest Bounded TakesTurns
PROPERTIES RefusedForRoom Flushed
CHECK_DEADLOCK FALSE
