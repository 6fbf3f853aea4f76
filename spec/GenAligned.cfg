SPECIFICATION Spec
CONSTANTS NBufs = 3
 Depth = 16
 Gen = TRUE
 Aligns = {0, 1, 16, 32, 64, 128, 256}
 Sizes = {0, 1, 3, 5}
INVARIANTS OneOwner NoDangling NoLeak OwnsOnlyBlocks Emit
CHECK_DEADLOCK FALSE
