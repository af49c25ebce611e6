SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 2
  Keys = {1, 2}
  Cs = {"A", "B"}
  MaxOps = 0
  MaxStops = 2
  Emit = FALSE
  Bug = ""
VIEW MView
INVARIANTS NoConflict Backed Once Kept
PROPERTIES NeverDown
CHECK_DEADLOCK FALSE
