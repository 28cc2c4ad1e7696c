SPECIFICATION Spec
CONSTANTS Shapes = {"unary", "unarys", "ss", "cs", "bidi"}
 MaxSteps = 5
 Emit = TRUE
VIEW View
INVARIANTS EmitScript OneOutcome
PROPERTIES HeaderFixed TrailerGrows
CHECK_DEADLOCK FALSE
