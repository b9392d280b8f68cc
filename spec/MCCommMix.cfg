SPECIFICATION Spec
CONSTANTS
  Size <- Few
  In = {1}
  Out = {3}
  MaxClients = 1
  Pkgs = 1
  Writes = 0
  Timers = 0
  Msgs = 0
  Rm = TRUE
INVARIANTS InOrder OutOrder OneReport NothingLost Limit Early MsgOrder QuietMeans
PROPERTIES Quiescent ClosedStays
CHECK_DEADLOCK FALSE
