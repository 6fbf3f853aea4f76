SPECIFICATION Spec
CONSTANTS NSlots = 2
 Depth = 4
 Gen = FALSE
INVARIANTS OwnersIndependent OwnersPrivate ViewsOnUser UserMemoryKept NoDangling
PROPERTY Frozen
VIEW MCView
CHECK_DEADLOCK FALSE
