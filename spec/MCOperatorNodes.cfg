SPECIFICATION Spec
CONSTANTS
  Nodes = {"A","B","C"}
  BadNodes = {"X"}
  PeerIds = {1,2}
  ShareNums = {1}
  Chains = {"c1"}
  Heights = {1}
  Kinds = {"init","nodes-add","nodes-remove"}
  Emit = TRUE
  Bug = ""
ACTION_CONSTRAINT PrintEdge
VIEW MView
INVARIANTS AlwaysValid
PROPERTIES MonitorsHold NeverLower
CHECK_DEADLOCK FALSE
