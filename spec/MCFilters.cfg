SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 3}
  KValues <- KVals
INVARIANTS RealAgrees LineIsFlat Commute OuterOK Identity Constant Mass MedianBounds SampledIsSubset
CHECK_DEADLOCK FALSE
