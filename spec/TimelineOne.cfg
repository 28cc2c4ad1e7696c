SPECIFICATION Spec
CONSTANTS Instants = {0}
 Pos = {0, 2}
 Neg = {1}
 Lens = {0, 1, 3}
 Long = 3
 Short = 1
 KeepAll = TRUE
 Strict = TRUE
 Part = "one"
INVARIANT Right
