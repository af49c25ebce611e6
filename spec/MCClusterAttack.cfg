SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 2
  Keys = {1, 2}
  Cs = {"A", "B"}
  MaxOps = 4
  MaxStops = 2
  Emit = TRUE
  Bug = "BUGNAME"
VIEW MView
ACTION_CONSTRAINT PrintAttack
CHECK_DEADLOCK FALSE
