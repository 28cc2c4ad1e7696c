SPECIFICATION Spec
CONSTANTS Writers = {"w1", "w2", "w3"}
 Subs = {"s1", "s2"}
 Ids = {"a", "b"}
 Ordered = TRUE
 LockedListen = FALSE
 WithRead = FALSE
 Emit = FALSE
VIEW View
INVARIANTS Converged InOrder ExactlyOnce
CHECK_DEADLOCK FALSE
