SPECIFICATION Spec
CONSTANTS
  NK = 3
  NC = 1
  NS = 1
  NH = 2
  Tasks = 0
  Max = 1
  Buf = 1
  Who <- WhoOne
  Cuts = 0
  Drops = 0
  Retry = FALSE
  PartialOk = FALSE
  Oldest = FALSE
  PermitFirst = FALSE
  OneLock = FALSE
  NoMutex = TRUE
  NoNotice = FALSE
  RunPartial = FALSE
INVARIANTS RulesKept 
CHECK_DEADLOCK FALSE
