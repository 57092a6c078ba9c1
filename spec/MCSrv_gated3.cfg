SPECIFICATION Spec
CONSTANTS
  NP = 2
  NH = 2
  Tasks = 2
  Buf = 1
  Items <- ItemsGated3
  EndPeers <- Both
  SlowPeers <- NoPeers
  Shakers <- NoPeers
  PermitFirst = FALSE
  NoEndOfInput = FALSE
  FailureCloses = FALSE
  PingCloses = FALSE
  KeepId = FALSE
  SharedDispatch = FALSE
  EarlyUnlock = FALSE
  AnyVersion = FALSE
  NoHello = FALSE
  LateHello = FALSE
  PartialPasses = FALSE
  FatalStops = FALSE
INVARIANTS RulesKept Limits Released
CHECK_DEADLOCK FALSE
