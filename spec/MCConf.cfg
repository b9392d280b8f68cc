SPECIFICATION Spec
CONSTANTS Chars = {32, 61, 91, 93, 35, 10, 97} MaxLen = 5
INVARIANTS Trimmed LineEnds Blanks Again
CHECK_DEADLOCK FALSE
