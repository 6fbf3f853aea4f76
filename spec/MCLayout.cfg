SPECIFICATION Spec
CONSTANTS MaxDim = 3
 MaxLen = 3
 Vals = {0, 1, 2}
INVARIANTS ReadsLastWrite WrapDesignates WrapInside
CHECK_DEADLOCK FALSE
