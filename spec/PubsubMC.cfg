SPECIFICATION Spec
CONSTANTS Writers = {"w1", "w2", "w3"}
 Subs = {"s1", "s2"}
 Ids = {"a", "b"}
 Ordered = TRUE
 LockedListen = TRUE
 WithRead = FALSE
 Emit = FALSE
VIEW View
INVARIANTS Converged InOrder ExactlyOnce
PROPERTY Finishes
CHECK_DEADLOCK FALSE
