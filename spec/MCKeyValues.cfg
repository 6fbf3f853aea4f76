SPECIFICATION Spec
CONSTANTS
  MaxBits = 10
  MaxPrec = 4
  MaxExp = 7
INVARIANTS Extremes Halves Neighbors Floors Clamps
CHECK_DEADLOCK FALSE
