CONSTANTS
  Thr = {1, 2}
  Ops <- Everything
  Flaw = "none"
SPECIFICATION Spec
INVARIANTS NoRace NoneStuck
CHECK_DEADLOCK FALSE
