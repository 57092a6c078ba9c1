SPECIFICATION Spec
CONSTANTS
  NP = 1
  NH = 2
  Tasks = 2
  Buf = 1
  Items <- ItemsFail2
  EndPeers <- Peer1
  SlowPeers <- NoPeers
  Shakers <- NoPeers
  PermitFirst = FALSE
  NoEndOfInput = FALSE
  FailureCloses = FALSE
  PingCloses = FALSE
  KeepId = FALSE
  SharedDispatch = FALSE
  EarlyUnlock = FALSE
  AnyVersion = FALSE
  NoHello = FALSE
  LateHello = FALSE
  PartialPasses = FALSE
  FatalStops = FALSE
INVARIANTS RulesKept Limits Released
CHECK_DEADLOCK FALSE
