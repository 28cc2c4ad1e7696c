CONSTANTS
  Thr = {1, 2}
  Ops <- Everything
  Flaw = "earlyResult"
SPECIFICATION Spec
INVARIANTS NoRace NoneStuck
CHECK_DEADLOCK FALSE
