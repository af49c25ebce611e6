SPECIFICATION Spec
CONSTANTS
  Nodes = {"A"}
  BadNodes = {}
  PeerIds = {1,2,3,4}
  ShareNums = {1,2,3,4,5}
  Chains = {"c1"}
  Heights = {1}
  Kinds = {"init","peers-add","peers-remove","set-shares"}
  Emit = TRUE
  Bug = ""
ACTION_CONSTRAINT PrintEdge
VIEW MView
INVARIANTS AlwaysValid
PROPERTIES MonitorsHold NeverLower
CHECK_DEADLOCK FALSE
