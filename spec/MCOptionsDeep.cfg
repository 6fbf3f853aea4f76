SPECIFICATION Spec
CONSTANT MaxToks = 5
INVARIANTS Unknown Defaults FlagsTakeNothing OrderFree NothingLost
CHECK_DEADLOCK FALSE
