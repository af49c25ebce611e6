SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Vals = {1, 2}
  MaxAsks = 4
  Emit = FALSE
  Bug = ""
VIEW MView
ACTION_CONSTRAINT PrintEdge
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
