SPECIFICATION Spec
CONSTANTS
  NCh = 2
  NA = 2
  On <- Own
  Budget = 5
  Fails = 1
  NoLock = FALSE
  AcceptEnds = FALSE
  NoDrop = FALSE
  NoCheck = FALSE
  KeepHandle = FALSE
INVARIANTS RulesKept OneListener Owned
CHECK_DEADLOCK FALSE
