SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS AllConsistent Equivalence TextShort
CHECK_DEADLOCK FALSE
