SPECIFICATION Spec
CONSTANTS
  N = 4
  Pipes = {0, 1}
  Masks <- AllMasks
  Depth = 3
  Gen = FALSE
INVARIANTS Closed Once Timed Coherent DfsLegal
CHECK_DEADLOCK FALSE
