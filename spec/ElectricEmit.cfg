SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Values = {0, 1}
 Procs = {}
 Locked = TRUE
 Checks = TRUE
 Emit = TRUE
VIEW View
ACTION_CONSTRAINT EmitPath
INVARIANTS AtMostOneNormal TheActiveExists
PROPERTIES NeverDeleted Stamped
CHECK_DEADLOCK FALSE
