SPECIFICATION Spec
CONSTANTS
  N = 3
  Keys = {"a"}
  MaxWrites = 2
  MaxDeaths = 1
  MaxSnaps = 1
  Free = FALSE
  Emit = TRUE
  Bug = ""
VIEW SView
ACTION_CONSTRAINT PrintEdge
INVARIANT Agreed
CHECK_DEADLOCK FALSE
