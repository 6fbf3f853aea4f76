SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS FormsAgree
CHECK_DEADLOCK FALSE
