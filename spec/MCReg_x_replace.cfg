SPECIFICATION Spec
CONSTANTS
  NOp = 3
  NKey = 1
  HoldLock = FALSE
  NoMutex = FALSE
  CheckFirst = FALSE
  Replace = TRUE
  Leak = FALSE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
