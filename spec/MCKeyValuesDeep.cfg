SPECIFICATION Spec
CONSTANTS
  MaxBits = 12
  MaxPrec = 6
  MaxExp = 9
INVARIANTS Extremes Halves Neighbors Floors Clamps
CHECK_DEADLOCK FALSE
