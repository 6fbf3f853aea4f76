SPECIFICATION Spec
CONSTANTS
  E = 4
  MaxOps = 3
  Naive = FALSE
INVARIANT Stable
CHECK_DEADLOCK FALSE
