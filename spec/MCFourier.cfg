SPECIFICATION Spec
CONSTANTS
  Slots = {0, 1, 2}
  MaxOps = 4
INVARIANTS Fits OneOwner NoDangling
CHECK_DEADLOCK FALSE
