SPECIFICATION Spec
INVARIANT Consistent
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
