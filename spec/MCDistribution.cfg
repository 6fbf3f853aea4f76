SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2}
  MaxLen = 4
INVARIANTS Right SameValues FlagRight Laws
CHECK_DEADLOCK FALSE
