SPECIFICATION Spec
CONSTANTS
  MaxArg = 12
  FirstCap = 9
  ContCap = 14
  Writer = "impl"
  MaxExtra = 0
  MarkWhenTight = TRUE
  EmptyIsNewArg = FALSE
INVARIANTS FramesLegal FlagsRight RoundTrip Partial Bounded
PROPERTY Terminates
CHECK_DEADLOCK FALSE
