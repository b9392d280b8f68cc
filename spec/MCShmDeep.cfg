SPECIFICATION Spec
CONSTANTS N = 4 W = 3 Big = 255
INVARIANTS Packed Views
PROPERTY OneCell
CHECK_DEADLOCK FALSE
