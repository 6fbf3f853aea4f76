SPECIFICATION Spec
CONSTANT MaxToks = 4
INVARIANTS Unknown Defaults FlagsTakeNothing OrderFree NothingLost
CHECK_DEADLOCK FALSE
