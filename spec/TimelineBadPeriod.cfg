SPECIFICATION Spec
CONSTANTS Instants = {0, 1, 2}
 Pos = {0, 2}
 Neg = {1}
 Lens = {0, 1, 3}
 Long = 1
 Short = 1
 KeepAll = TRUE
 Strict = FALSE
 Part = "periods"
INVARIANT Right
