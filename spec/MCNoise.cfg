SPECIFICATION Spec
CONSTANTS
  E = 3
  MaxOps = 3
  Naive = FALSE
INVARIANT Stable
CHECK_DEADLOCK FALSE
