SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 2
  MaxReqs = 2
  MaxStops = 1
  MaxMoves = 1
  MaxSnaps = 1
  Free = TRUE
  Emit = FALSE
  Bug = ""
VIEW MView
INVARIANT OneSignature
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
