SPECIFICATION Spec
CONSTANTS
  MaxArg = 7
  FirstCap = 9
  ContCap = 10
  Writer = "peer"
  MaxExtra = 2
  MarkWhenTight = TRUE
  EmptyIsNewArg = FALSE
INVARIANTS FramesLegal FlagsRight RoundTrip Partial Bounded

CHECK_DEADLOCK FALSE
VIEW PeerView
