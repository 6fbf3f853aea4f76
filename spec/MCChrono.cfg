SPECIFICATION Spec
CONSTANTS
  Slots = {0, 1}
  Depth = 6
INVARIANTS Accounting NoNegative Spread Fits
PROPERTY Grows
CHECK_DEADLOCK FALSE
