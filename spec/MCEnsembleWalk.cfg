SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 2
  MaxReqs = 2
  MaxStops = 1
  MaxMoves = 1
  MaxSnaps = 1
  Free = FALSE
  Emit = TRUE
  Bug = ""
VIEW SView
ACTION_CONSTRAINT PrintEdge
INVARIANT OneSignature
CHECK_DEADLOCK FALSE
