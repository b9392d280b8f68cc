SPECIFICATION Spec
CONSTANTS
  Size <- Few
  In = {}
  Out = {}
  MaxClients = 1
  Pkgs = 0
  Writes = 0
  Timers = 3
  Msgs = 3
  Rm = FALSE
INVARIANTS InOrder OutOrder OneReport NothingLost Limit Early MsgOrder QuietMeans
PROPERTIES Quiescent ClosedStays
CHECK_DEADLOCK FALSE
