SPECIFICATION Spec
CONSTANTS
  NCh = 1
  NA = 1
  On <- Same
  Budget = 3
  Fails = 0
  NoLock = FALSE
  AcceptEnds = FALSE
  NoDrop = TRUE
  NoCheck = FALSE
  KeepHandle = FALSE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
