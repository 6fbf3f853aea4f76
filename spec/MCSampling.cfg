SPECIFICATION Spec
CONSTANTS
  Bound = 8
  Depth = 3
INVARIANTS Inside Distinct
CHECK_DEADLOCK FALSE
