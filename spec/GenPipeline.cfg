SPECIFICATION Spec
CONSTANTS
  N = 5
  Pipes = {0, 1, 2}
  Masks <- Compiled
  Depth = 14
  Gen = TRUE
INVARIANTS Closed Once Timed Emit
CHECK_DEADLOCK FALSE
