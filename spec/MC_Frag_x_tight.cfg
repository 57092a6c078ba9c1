SPECIFICATION Spec
CONSTANTS
  MaxArg = 7
  FirstCap = 6
  ContCap = 8
  Writer = "impl"
  MaxExtra = 0
  MarkWhenTight = FALSE
  EmptyIsNewArg = FALSE
INVARIANTS FramesLegal FlagsRight RoundTrip Partial Bounded
PROPERTY Terminates
CHECK_DEADLOCK FALSE
