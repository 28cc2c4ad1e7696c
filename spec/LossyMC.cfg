SPECIFICATION Spec
CONSTANTS
  Ids = {"x", "y"}
  Vals = {1, 2}
  MaxWrites = 5
INVARIANTS TakenIsNet Drained PendIsQueue
PROPERTIES NetExact Catches
CHECK_DEADLOCK FALSE
