SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Sizes = {0, 1, 2}
  MaxOps = 4
  Names = {"a", "b"}
INVARIANT Lifetimes
CHECK_DEADLOCK FALSE
