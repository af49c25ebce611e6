SPECIFICATION Spec
CONSTANTS
  Conns = {"1","2"}
  MaxKills = 2
  MaxReqs = 3
  Emit = FALSE
  Bug = ""
  HRSs <- ThreeHrs
  Contents = {"A","B"}
  Times = {1,2}
VIEW MView
INVARIANTS OnDisk
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
