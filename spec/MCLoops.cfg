SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxDim = 3
  MaxSize = 8
INVARIANTS Once AllSame Bijections Lexicographic NotStuck
CHECK_DEADLOCK FALSE
