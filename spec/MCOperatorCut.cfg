SPECIFICATION Spec
CONSTANTS
  Nodes = {"A","B"}
  BadNodes = {}
  PeerIds = {1,2}
  ShareNums = {1}
  Chains = {"c1","c2"}
  Heights = {1,2}
  Kinds = {"init","chain-set","state-set","state-show","seed","nodes-add","cut"}
  Emit = FALSE
  Bug = ""
VIEW MView
INVARIANTS AlwaysValid StatesThere
PROPERTIES MonitorsHold NeverLower
CHECK_DEADLOCK FALSE
