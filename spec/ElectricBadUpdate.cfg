SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Values = {0, 1}
 Procs = {}
 Locked = TRUE
 Checks = FALSE
 Emit = FALSE
VIEW View

INVARIANTS AtMostOneNormal TheActiveExists
PROPERTIES NeverDeleted Stamped
CHECK_DEADLOCK FALSE
