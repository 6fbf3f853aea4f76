SPECIFICATION Spec
CONSTANTS
  Slots = {0, 1}
  Depth = 8
INVARIANTS Accounting NoNegative Spread Fits
PROPERTY Grows
CHECK_DEADLOCK FALSE
