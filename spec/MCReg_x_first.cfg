SPECIFICATION Spec
CONSTANTS
  NOp = 4
  NKey = 1
  HoldLock = FALSE
  NoMutex = FALSE
  CheckFirst = TRUE
  Replace = FALSE
  Leak = FALSE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
