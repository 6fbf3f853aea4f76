SPECIFICATION Spec
CONSTANT MaxOps = 6
INVARIANTS LastWritten WellTyped NeverLost
PROPERTIES ErrorsChangeNothing OnlyRests OneFile RoundTrip
CHECK_DEADLOCK FALSE
