SPECIFICATION Spec
CONSTANTS
  NK = 3
  Max = 1
  Buf = 1
  Test = FALSE
  NF <- One
  RF <- Mixed
  Ids = 2
  Losses = 0
  Drops = 1
  Strays = 0
  BadPongs = 0
  How <- Fin
  NoClose = FALSE
  NoPermits = FALSE
  DupReplaces = TRUE
  NoRelease = FALSE
  KeepInput = FALSE
  PartialOk = FALSE
  UnknownCloses = FALSE
  EarlyRelease = FALSE
  Ages = 0
  Mutes = 0
  Freezes = 0
  Life = FALSE
  RetireCloses = FALSE
  HsForever = FALSE
  TestForever = FALSE
  BadHellos = 0
  AnyHello = FALSE
  EarlyUse = FALSE
  Patient = FALSE
  Missed = FALSE
INVARIANTS RulesKept 
VIEW View
CHECK_DEADLOCK FALSE
