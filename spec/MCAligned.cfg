SPECIFICATION Spec
CONSTANTS NBufs = 2
 Depth = 5
 Gen = FALSE
 Aligns = {0, 16}
 Sizes = {2}
INVARIANTS OneOwner NoDangling NoLeak OwnsOnlyBlocks
PROPERTY FreeDiscipline
VIEW MCView
CHECK_DEADLOCK FALSE
