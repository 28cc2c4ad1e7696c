SPECIFICATION Spec
CONSTANTS
 MaxWrites = 2
 MaxStreams = 2
 Broken = FALSE
INVARIANT Placed
INVARIANT Complete
INVARIANT Coherent
CHECK_DEADLOCK FALSE
