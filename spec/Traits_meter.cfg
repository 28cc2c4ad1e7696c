SPECIFICATION Spec
CONSTANTS Kind = "meter"
 Emit = TRUE
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitPath
INVARIANTS Consistent Accepted
PROPERTIES AckLasts
CHECK_DEADLOCK FALSE
