SPECIFICATION Spec
CONSTANTS NBufs = 2
 Depth = 4
 Gen = TRUE
 Aligns = {0}
 Sizes = {2}
INVARIANTS OneOwner NoDangling NoLeak OwnsOnlyBlocks Emit
CHECK_DEADLOCK FALSE
