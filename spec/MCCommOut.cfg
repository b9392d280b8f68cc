SPECIFICATION Spec
CONSTANTS
  Size <- Few
  In = {}
  Out = {3, 4}
  MaxClients = 1
  Pkgs = 0
  Writes = 0
  Timers = 0
  Msgs = 0
  Rm = FALSE
INVARIANTS InOrder OutOrder OneReport NothingLost Limit Early MsgOrder QuietMeans
PROPERTIES Quiescent ClosedStays
CHECK_DEADLOCK FALSE
