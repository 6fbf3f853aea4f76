SPECIFICATION Spec
CONSTANTS
  Thr = {1, 2, 3}
  MaxOps = 2
  Private = TRUE
  Locked = TRUE
INVARIANTS AsAlone SharedAsAlone OnePlanner NoDeadlock
CHECK_DEADLOCK FALSE
