SPECIFICATION Spec
CONSTANTS
  NK = 3
  NC = 2
  NS = 1
  NH = 2
  Tasks = 1
  Max = 1
  Buf = 1
  Who <- WhoTwo
  Cuts = 1
  Drops = 0
  Retry = FALSE
  PartialOk = FALSE
  Oldest = FALSE
  PermitFirst = FALSE
  OneLock = FALSE
  NoMutex = FALSE
  NoNotice = FALSE
  RunPartial = FALSE
INVARIANTS RulesKept Permits Locks
CHECK_DEADLOCK FALSE
