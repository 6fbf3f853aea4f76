SPECIFICATION Spec
CONSTANTS
  N = 4
  Pipes = {0}
  Masks <- AllMasks
  Depth = 2
  Gen = TRUE
INVARIANTS Closed Once Timed Emit
CHECK_DEADLOCK FALSE
