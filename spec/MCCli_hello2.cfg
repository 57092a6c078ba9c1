SPECIFICATION Spec
CONSTANTS
  NK = 3
  Max = 2
  Buf = 1
  Test = FALSE
  NF <- One
  RF <- One
  Ids = 16
  Losses = 0
  Drops = 0
  Strays = 0
  BadPongs = 0
  How <- AnyHow
  NoClose = FALSE
  NoPermits = FALSE
  DupReplaces = FALSE
  NoRelease = FALSE
  KeepInput = FALSE
  PartialOk = FALSE
  UnknownCloses = FALSE
  EarlyRelease = FALSE
  Ages = 0
  Mutes = 0
  Freezes = 0
  Life = FALSE
  RetireCloses = FALSE
  HsForever = FALSE
  TestForever = FALSE
  BadHellos = 1
  AnyHello = FALSE
  EarlyUse = FALSE
  Patient = FALSE
  Missed = FALSE
INVARIANTS RulesKept Limits Unique
VIEW View
CHECK_DEADLOCK FALSE
