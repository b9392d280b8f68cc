SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 2, 8, 9, 13}
  Spaces = {0, 1, 8, 13}
  Rooms = {17, 24, 33, 40, 51}
INVARIANTS Bounded Laid
VIEW View
CHECK_DEADLOCK FALSE
