SPECIFICATION Spec
CONSTANTS
  MaxArg = 4
  FirstCap = 6
  ContCap = 7
  Writer = "peer"
  MaxExtra = 2
  MarkWhenTight = TRUE
  EmptyIsNewArg = FALSE
INVARIANTS FramesLegal FlagsRight RoundTrip Partial Bounded

CHECK_DEADLOCK FALSE
VIEW PeerView
