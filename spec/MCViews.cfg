SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS FlatIsRun InjectiveView SizeOK ContigSound OrderedCells
CHECK_DEADLOCK FALSE
