SPECIFICATION Spec
CONSTANTS
  Conns = {"1","2"}
  Kinds = {"vote","proposal","pubkey","ping"}
  MaxSends = 2
  MaxDowns = 1
  Direct = FALSE
  Emit = TRUE
  Bug = ""
ACTION_CONSTRAINT PrintEdge
VIEW MView
INVARIANTS OneInside
PROPERTIES MonitorsHold 
CHECK_DEADLOCK FALSE
