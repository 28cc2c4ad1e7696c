CONSTANTS
  Thr = {1, 2, 3}
  Ops <- Everything
  Flaw = "none"
SPECIFICATION Spec
INVARIANTS NoRace NoneStuck
CHECK_DEADLOCK FALSE
