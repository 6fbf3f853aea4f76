SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Lines = {"a", "bc"}
  MaxIndent = 1
  MaxOps = 6
  Length = 3
INVARIANTS Faithful Together
PROPERTY Distance
CHECK_DEADLOCK FALSE
