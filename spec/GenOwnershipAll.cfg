SPECIFICATION Spec
CONSTANTS NSlots = 2
 Depth = 3
 Gen = TRUE
INVARIANTS OwnersIndependent OwnersPrivate ViewsOnUser UserMemoryKept NoDangling Emit
CHECK_DEADLOCK FALSE
