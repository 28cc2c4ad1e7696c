SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Values = {0, 1}
 Procs = {"p", "q"}
 Locked = FALSE
 Checks = TRUE
 Emit = FALSE
VIEW View

INVARIANTS AtMostOneNormal TheActiveExists
PROPERTIES NeverDeleted Stamped
CHECK_DEADLOCK FALSE
