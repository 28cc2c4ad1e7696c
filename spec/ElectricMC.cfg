SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c"}
 Values = {0, 1}
 Procs = {}
 Locked = TRUE
 Checks = TRUE
 Emit = FALSE
VIEW View

INVARIANTS AtMostOneNormal TheActiveExists
PROPERTIES NeverDeleted Stamped
CHECK_DEADLOCK FALSE
