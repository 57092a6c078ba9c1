SPECIFICATION Spec
CONSTANTS
  NK = 2
  NC = 1
  NS = 1
  NH = 2
  Tasks = 1
  Max = 1
  Buf = 1
  Who <- WhoOne
  Cuts = 0
  Drops = 1
  Retry = FALSE
  PartialOk = FALSE
  Oldest = FALSE
  PermitFirst = TRUE
  OneLock = FALSE
  NoMutex = FALSE
  NoNotice = FALSE
  RunPartial = FALSE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
