SPECIFICATION Spec
INVARIANT CursorInRange
PROPERTY Advances
CHECK_DEADLOCK FALSE
