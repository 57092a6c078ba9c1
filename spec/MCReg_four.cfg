SPECIFICATION Spec
CONSTANTS
  NOp = 4
  NKey = 1
  HoldLock = FALSE
  NoMutex = FALSE
  CheckFirst = FALSE
  Replace = FALSE
  Leak = FALSE
INVARIANTS RulesKept Tracked
CHECK_DEADLOCK FALSE
