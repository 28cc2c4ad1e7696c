SPECIFICATION Spec
CONSTANTS Writers = {"w1", "w2"}
 Subs = {"s1"}
 Ids = {"a"}
 Ordered = FALSE
 LockedListen = FALSE
 WithRead = TRUE
 Emit = TRUE
VIEW View
INVARIANTS EmitSched
CHECK_DEADLOCK FALSE
