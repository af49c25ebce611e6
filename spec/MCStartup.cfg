SPECIFICATION Spec
CONSTANTS
  Modes = {"cosigner","single"}
  Emit = FALSE
  Bug = ""
VIEW MView
PROPERTIES MonitorsHold Runs
CHECK_DEADLOCK FALSE
