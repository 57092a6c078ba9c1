SPECIFICATION Spec
CONSTANTS
  NOp = 3
  NKey = 1
  HoldLock = TRUE
  NoMutex = FALSE
  CheckFirst = FALSE
  Replace = FALSE
  Leak = FALSE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
