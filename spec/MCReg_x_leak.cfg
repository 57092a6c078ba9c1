SPECIFICATION Spec
CONSTANTS
  NOp = 3
  NKey = 1
  HoldLock = FALSE
  NoMutex = FALSE
  CheckFirst = FALSE
  Replace = FALSE
  Leak = TRUE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
