SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  None = 0
  Names = {1, 2}
  Clients = {1, 2}
  Callers = {1, 2}
  MaxOps = 3
  HasFb = TRUE
  HasFac = TRUE
INVARIANTS Balanced AutoOnce Found
