SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxDim = 3
  Primes = {3, 5, 7}
INVARIANTS Counted Total Ranked Medians Histograms Variances Borders Midway Kernels Lines Mid Backwards
CHECK_DEADLOCK FALSE
