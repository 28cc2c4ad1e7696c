SPECIFICATION Spec
CONSTANTS Writers = {"w1", "w2", "w3"}
 Subs = {"s1"}
 Ids = {"a"}
 Ordered = FALSE
 LockedListen = FALSE
 WithRead = FALSE
 Emit = TRUE
VIEW View
INVARIANTS EmitSched
CHECK_DEADLOCK FALSE
