SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
 Revalidate = "none"
 MaxRetry = 2
 Emit = FALSE
 Small = FALSE
VIEW View
INVARIANTS Linearizable NoLostIncrement TwoAdds
CHECK_DEADLOCK FALSE
