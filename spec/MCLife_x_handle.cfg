SPECIFICATION Spec
CONSTANTS
  NCh = 1
  NA = 1
  On <- Same
  Budget = 4
  Fails = 0
  NoLock = FALSE
  AcceptEnds = FALSE
  NoDrop = FALSE
  NoCheck = FALSE
  KeepHandle = TRUE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
