SPECIFICATION Spec
CONSTANTS
  Hs = {1,4,5}
  Ss = {1,2}
  Cs = {"A","B"}
  Ts = {0,1}
  MaxPend = 1
  MaxOps = 4
  Fresh = TRUE
  LssOn = TRUE
  AbsentOn = TRUE
  Emit = FALSE
  Bug = ""
VIEW MView
INVARIANTS Safe Sound Covered
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
