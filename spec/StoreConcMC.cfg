SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
 Revalidate = "value"
 MaxRetry = 2
 Emit = FALSE
 Small = FALSE
VIEW View
INVARIANTS Linearizable NoLostIncrement TwoAdds
CHECK_DEADLOCK FALSE
