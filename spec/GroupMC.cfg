SPECIFICATION Spec
CONSTANTS MaxN = 3
 Strats = {"all", "most", "any", "upto", "one", "fast", "race"}
 Emit = FALSE
INVARIANTS Contract FirstError Own CancelSafe
PROPERTIES Stable Ends AllBack
CHECK_DEADLOCK FALSE
