SPECIFICATION Spec
CONSTANTS
  Thr = {1, 2}
  MaxOps = 2
  Private = TRUE
  Locked = FALSE
INVARIANTS AsAlone SharedAsAlone OnePlanner NoDeadlock
CHECK_DEADLOCK FALSE
