SPECIFICATION Spec
CONSTANTS
  MaxArg = 2
  FirstCap = 4
  ContCap = 5
  Writer = "peer"
  MaxExtra = 1
  MarkWhenTight = TRUE
  EmptyIsNewArg = TRUE
INVARIANTS FramesLegal FlagsRight RoundTrip Partial Bounded

CHECK_DEADLOCK FALSE
VIEW PeerView
