SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Sizes = {0, 1, 2}
  MaxOps = 6
  Names = {"a"}
INVARIANT Lifetimes
CHECK_DEADLOCK FALSE
