SPECIFICATION Spec
CONSTANTS
  Ids = {"x", "y"}
  Vals <- MCVals
  MaxLen = 3
INVARIANTS ViewIsFiltered ExactWithout
PROPERTIES KindsFit NothingEquivalent
CHECK_DEADLOCK FALSE
