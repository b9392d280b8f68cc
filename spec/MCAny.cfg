SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Steps = 2
INVARIANTS RoundTrip Cuts JsonTrip JsonCuts Forms
CHECK_DEADLOCK FALSE
