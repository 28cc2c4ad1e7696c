SPECIFICATION Spec
CONSTANTS Kind = "enter"
 Emit = TRUE
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitPath
INVARIANTS Consistent Accepted
PROPERTIES AckLasts
CHECK_DEADLOCK FALSE
