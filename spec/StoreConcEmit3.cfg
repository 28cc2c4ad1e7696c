SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
 Revalidate = "value"
 MaxRetry = 2
 Emit = TRUE
 Small = TRUE
VIEW View
INVARIANTS Linearizable NoLostIncrement TwoAdds EmitSched
CHECK_DEADLOCK FALSE
