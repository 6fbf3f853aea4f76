SPECIFICATION Spec
CONSTANTS NSlots = 3
 Depth = 14
 Gen = TRUE
INVARIANTS OwnersIndependent OwnersPrivate ViewsOnUser UserMemoryKept NoDangling Emit
CHECK_DEADLOCK FALSE
