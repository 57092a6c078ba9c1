SPECIFICATION Spec
CONSTANTS
  NCh = 1
  NA = 1
  On <- Same
  Budget = 4
  Fails = 0
  NoLock = TRUE
  AcceptEnds = FALSE
  NoDrop = FALSE
  NoCheck = FALSE
  KeepHandle = FALSE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
