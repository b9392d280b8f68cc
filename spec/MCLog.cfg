SPECIFICATION Spec
CONSTANT Limit = 5
CONSTANT N = 2
CONSTANT Cap = 4
CONSTANT Sizes = {1, 2, 4, 5}
CONSTANT MaxLines = 6
INVARIANTS NothingLost Files OnlyOldest Bounded TakesTurns
PROPERTIES RefusedForRoom Flushed
CHECK_DEADLOCK FALSE
