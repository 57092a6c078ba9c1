SPECIFICATION Spec
CONSTANTS
  NCh = 1
  NA = 1
  On <- Same
  Budget = 3
  Fails = 1
  NoLock = FALSE
  AcceptEnds = TRUE
  NoDrop = FALSE
  NoCheck = FALSE
  KeepHandle = FALSE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
