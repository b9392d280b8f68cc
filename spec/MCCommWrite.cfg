SPECIFICATION Spec
CONSTANTS
  Size <- AllSizes
  In = {1}
  Out = {}
  MaxClients = 2
  Pkgs = 0
  Writes = 3
  Timers = 0
  Msgs = 0
  Rm = FALSE
INVARIANTS InOrder OutOrder OneReport NothingLost Limit Early MsgOrder QuietMeans
PROPERTIES Quiescent ClosedStays
CHECK_DEADLOCK FALSE
