SPECIFICATION Spec
CONSTANTS
 Addr = {1,2,3,4,5,6,7,8,9,10,11,12,13,14}
 Content = {"y","z"}
 MaxOps = 6
 Flaw = "none"
INVARIANT Snapshots
INVARIANT Stored
CHECK_DEADLOCK FALSE
