SPECIFICATION Spec
CONSTANTS
  NOp = 3
  NKey = 1
  HoldLock = FALSE
  NoMutex = TRUE
  CheckFirst = FALSE
  Replace = FALSE
  Leak = FALSE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
