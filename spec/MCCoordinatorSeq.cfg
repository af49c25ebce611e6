SPECIFICATION Spec
CONSTANTS
  Hs = {1,4,5}
  Ss = {2}
  Cs = {"A","B"}
  Ts = {0,1}
  MaxPend = 1
  MaxOps = 3
  Fresh = TRUE
  LssOn = TRUE
  AbsentOn = TRUE
  Emit = TRUE
  Bug = ""
ACTION_CONSTRAINT PrintEdge
VIEW MView
INVARIANTS Safe Sound Covered
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
