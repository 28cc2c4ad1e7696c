SPECIFICATION Spec
CONSTANTS Instants = {0}
 Pos = {0, 2}
 Neg = {1}
 Lens = {0, 1, 3}
 Long = 1
 Short = 2
 KeepAll = FALSE
 Strict = TRUE
 Part = "two"
INVARIANT Right
