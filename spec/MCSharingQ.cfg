SPECIFICATION Spec
CONSTANTS
  P = 5
  MaxN = 3
  Emit = TRUE
  Bug = ""
VIEW MView
ACTION_CONSTRAINT PrintEdge
INVARIANTS Hiding
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
