SPECIFICATION Spec
CONSTANTS
  Hs = {1}
  Ss = {1}
  Cs = {"A","B"}
  Ts = {0,1}
  MaxPend = 3
  MaxOps = 4
  Fresh = TRUE
  LssOn = TRUE
  AbsentOn = FALSE
  Emit = FALSE
  Bug = ""
VIEW MView
INVARIANTS Safe Sound Covered
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
