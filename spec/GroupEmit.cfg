SPECIFICATION Spec
CONSTANTS MaxN = 4
 Strats = {"all", "most", "any", "upto", "one", "fast", "race"}
 Emit = TRUE
INVARIANTS EmitScript Contract FirstError Own CancelSafe
CHECK_DEADLOCK FALSE
