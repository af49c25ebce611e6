SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Bug = ""
VIEW MView
ACTION_CONSTRAINT PrintEdge
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
