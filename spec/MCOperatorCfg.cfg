SPECIFICATION Spec
CONSTANTS
  Nodes = {"A","B","C"}
  BadNodes = {"X"}
  PeerIds = {1,2,3,4}
  ShareNums = {1,2,3,4,5}
  Chains = {"c1"}
  Heights = {1}
  Kinds = {"init","nodes-add","nodes-remove","peers-add","peers-remove","set-shares"}
  Emit = FALSE
  Bug = ""

VIEW MView
INVARIANTS AlwaysValid
PROPERTIES MonitorsHold NeverLower
CHECK_DEADLOCK FALSE
