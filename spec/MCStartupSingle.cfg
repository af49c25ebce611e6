SPECIFICATION Spec
CONSTANTS
  Modes = {"single"}
  Emit = TRUE
  Bug = ""
ACTION_CONSTRAINT PrintEdge
VIEW MView
PROPERTIES MonitorsHold Runs
CHECK_DEADLOCK FALSE
