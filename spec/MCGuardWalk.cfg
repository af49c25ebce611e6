SPECIFICATION Spec
CONSTANTS
  Conns = {"1","2"}
  Kinds = {"vote","proposal","pubkey"}
  MaxSends = 3
  MaxDowns = 0
  Direct = TRUE
  Emit = TRUE
  Bug = ""
ACTION_CONSTRAINT PrintEdge
VIEW MView
INVARIANTS OneInside
PROPERTIES MonitorsHold 
CHECK_DEADLOCK FALSE
