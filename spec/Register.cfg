SPECIFICATION Spec
CONSTANTS
 MaxWrites = 3
 MaxStreams = 1
 Broken = FALSE
INVARIANT Placed
INVARIANT Complete
INVARIANT Coherent
CHECK_DEADLOCK FALSE
