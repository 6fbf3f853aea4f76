SPECIFICATION Spec
CONSTANTS
  Thr = {1, 2}
  MaxOps = 2
  Private = FALSE
  Locked = TRUE
INVARIANTS AsAlone SharedAsAlone OnePlanner NoDeadlock
CHECK_DEADLOCK FALSE
