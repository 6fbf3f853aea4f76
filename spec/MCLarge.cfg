SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxDim = 2
  Primes = {3, 5}
INVARIANTS Counted Total Ranked Medians Histograms Variances Borders Midway Kernels Lines Mid Backwards
CHECK_DEADLOCK FALSE
