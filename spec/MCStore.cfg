SPECIFICATION Spec
CONSTANTS
  N = 3
  Keys = {"a", "b"}
  MaxWrites = 2
  MaxDeaths = 1
  MaxSnaps = 1
  Free = TRUE
  Emit = FALSE
  Bug = ""
VIEW MView
INVARIANT Agreed
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
