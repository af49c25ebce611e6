SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Vals = {1, 2}
  MaxAsks = 3
  Emit = TRUE
  Bug = ""
VIEW MView
ACTION_CONSTRAINT PrintEdge
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
