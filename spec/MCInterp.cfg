SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2}
  Few = {0, 1}
  Reach = 2
INVARIANTS InDomain ConstOutside NearIsClosest PerPeriod AtInteger LinBetween TinyOK AffineOK
CHECK_DEADLOCK FALSE
