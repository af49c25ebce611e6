SPECIFICATION Spec
CONSTANTS
  Conns = {"1","2"}
  Kinds = {"vote","proposal","pubkey","ping"}
  MaxSends = 3
  MaxDowns = 1
  Direct = FALSE
  Emit = FALSE
  Bug = ""

VIEW MView
INVARIANTS OneInside
PROPERTIES MonitorsHold 
CHECK_DEADLOCK FALSE
