SPECIFICATION Spec
CONSTANT MaxOps = 4
INVARIANTS LastWritten WellTyped NeverLost
PROPERTIES ErrorsChangeNothing OnlyRests OneFile RoundTrip
CHECK_DEADLOCK FALSE
