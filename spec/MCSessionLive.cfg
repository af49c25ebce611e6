SPECIFICATION LiveSpec
CONSTANTS
  Conns = {"1","2"}
  Kinds = {"vote","ping"}
  MaxSends = 2
  MaxDowns = 1
  Direct = FALSE
  Emit = FALSE
  Bug = ""

VIEW MView
INVARIANTS OneInside
PROPERTIES MonitorsHold Answered Reconnects
CHECK_DEADLOCK FALSE
