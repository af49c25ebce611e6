SPECIFICATION Spec
CONSTANTS
  Mode = "design"
  Hs = {1,2}
  Rs = {0}
  Ss = {2,3}
  Cs = {"A","B"}
  Ts = {0,1}
  MaxLive = 1
  MaxRel = 0
  Emit = TRUE
  Without = {}
CONSTRAINT Bound
ACTION_CONSTRAINT PrintEdge
VIEW DView
INVARIANTS NoDoubleSign NoNonceReuse OnlyGood Stored
PROPERTIES MonitorsHold Forward
CHECK_DEADLOCK FALSE
