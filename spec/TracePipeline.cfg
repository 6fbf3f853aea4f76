SPECIFICATION Spec
CONSTANT N = 5
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
