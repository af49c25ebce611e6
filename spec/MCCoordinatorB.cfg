SPECIFICATION Spec
CONSTANTS
  Hs = {1,5}
  Ss = {2}
  Cs = {"A","B"}
  Ts = {0,1}
  MaxPend = 2
  MaxOps = 3
  Fresh = TRUE
  LssOn = TRUE
  AbsentOn = FALSE
  Emit = FALSE
  Bug = ""
VIEW MView
INVARIANTS Safe Sound Covered
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
