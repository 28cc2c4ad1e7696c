SPECIFICATION Spec
CONSTANTS Keys = {0, 1, 2, 3, 4, 5, 6, 7, 8}
 Sizes = {0, 1, 2, 3, 9}
 Default = 2
 Max = 5
 ByKey = FALSE
CONSTRAINT Short
INVARIANTS Once All NoLonger Bounded
PROPERTIES Contract Ends
CHECK_DEADLOCK FALSE
