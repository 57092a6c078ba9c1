SPECIFICATION Spec
CONSTANTS
  NK = 3
  NC = 1
  NS = 1
  NH = 2
  Tasks = 2
  Max = 2
  Buf = 1
  Who <- WhoOne
  Cuts = 0
  Drops = 0
  Retry = FALSE
  PartialOk = FALSE
  Oldest = FALSE
  PermitFirst = FALSE
  OneLock = FALSE
  NoMutex = FALSE
  NoNotice = FALSE
  RunPartial = FALSE
INVARIANTS RulesKept Permits Locks
CHECK_DEADLOCK FALSE
