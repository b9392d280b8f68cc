SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Steps = 3
INVARIANTS RoundTrip Cuts JsonTrip JsonCuts Forms
CHECK_DEADLOCK FALSE
