SPECIFICATION Spec
CONSTANTS
  Mode = "monitor"
  Hs = {1}
  Rs = {0}
  Ss = {2}
  Cs = {"A","B"}
  Ts = {0,1}
  MaxLive = 1
  MaxRel = 2
  Emit = FALSE
  Without = {}
CONSTRAINT Bound
VIEW MView
INVARIANTS NoDoubleSign NoNonceReuse OnlyGood Stored
PROPERTIES Forward
CHECK_DEADLOCK FALSE
