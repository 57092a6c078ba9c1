SPECIFICATION Spec
CONSTANTS
  NK = 2
  NC = 1
  NS = 1
  NH = 2
  Tasks = 1
  Max = 2
  Buf = 1
  Who <- WhoOne
  Cuts = 1
  Drops = 0
  Retry = FALSE
  PartialOk = TRUE
  Oldest = FALSE
  PermitFirst = FALSE
  OneLock = FALSE
  NoMutex = FALSE
  NoNotice = FALSE
  RunPartial = FALSE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
