CONSTANTS
  Thr = {1, 2}
  Ops <- Stored
  Flaw = "none"
SPECIFICATION EmitSpec
CHECK_DEADLOCK FALSE
