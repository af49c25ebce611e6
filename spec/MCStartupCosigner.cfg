SPECIFICATION Spec
CONSTANTS
  Modes = {"cosigner"}
  Emit = TRUE
  Bug = ""
ACTION_CONSTRAINT PrintEdge
VIEW MView
PROPERTIES MonitorsHold Runs
CHECK_DEADLOCK FALSE
