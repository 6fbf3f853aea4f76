SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2}
  MaxLen = 5
INVARIANTS Right SameValues FlagRight Laws
CHECK_DEADLOCK FALSE
