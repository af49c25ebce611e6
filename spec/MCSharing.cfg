SPECIFICATION Spec
CONSTANTS
  P = 5
  MaxN = 4
  Emit = TRUE
  Bug = ""
VIEW MView
ACTION_CONSTRAINT PrintEdge
INVARIANTS Hiding
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
