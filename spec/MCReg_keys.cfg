SPECIFICATION Spec
CONSTANTS
  NOp = 3
  NKey = 2
  HoldLock = FALSE
  NoMutex = FALSE
  CheckFirst = FALSE
  Replace = FALSE
  Leak = FALSE
INVARIANTS RulesKept Tracked
CHECK_DEADLOCK FALSE
