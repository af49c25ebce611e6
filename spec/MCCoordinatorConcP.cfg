SPECIFICATION Spec
CONSTANTS
  Hs = {1}
  Ss = {1}
  Cs = {"A","B"}
  Ts = {0}
  MaxPend = 2
  MaxOps = 4
  Fresh = TRUE
  LssOn = TRUE
  AbsentOn = FALSE
  Emit = TRUE
  Bug = ""
ACTION_CONSTRAINT PrintEdge
VIEW MView
INVARIANTS Safe Sound Covered
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
