SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
 Revalidate = "value"
 MaxRetry = 2
 Emit = TRUE
 Small = FALSE
VIEW View
INVARIANTS Linearizable NoLostIncrement TwoAdds EmitSched
CHECK_DEADLOCK FALSE
