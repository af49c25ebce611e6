SPECIFICATION Spec
CONSTANTS
  Nodes = {"A"}
  BadNodes = {}
  PeerIds = {1,2}
  ShareNums = {1}
  Chains = {"c1","c2"}
  Heights = {1,2,3}
  Kinds = {"init","chain-set","state-set","state-show","seed"}
  Emit = FALSE
  Bug = ""

VIEW MView
INVARIANTS AlwaysValid
PROPERTIES MonitorsHold NeverLower
CHECK_DEADLOCK FALSE
