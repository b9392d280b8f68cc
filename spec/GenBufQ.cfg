SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 9, 13}
  Spaces = {8, 13}
  Rooms = {24, 41}
INVARIANTS Bounded Laid
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
