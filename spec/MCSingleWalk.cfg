SPECIFICATION Spec
CONSTANTS
  Conns = {"1"}
  MaxKills = 1000
  MaxReqs = 100000
  Emit = TRUE
  Bug = ""
  HRSs <- ThreeHrs
  Contents = {"A","B"}
  Times = {1,2}
ACTION_CONSTRAINT PrintEdge
VIEW WView
INVARIANTS OnDisk
PROPERTIES MonitorsHold
CHECK_DEADLOCK FALSE
