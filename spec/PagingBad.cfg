SPECIFICATION Spec
CONSTANTS Keys = {0, 1, 2, 3, 4, 5}
 Sizes = {0, 1, 2, 3, 9}
 Default = 2
 Max = 4
 ByKey = TRUE
CONSTRAINT Short
INVARIANTS Once All NoLonger Bounded
CHECK_DEADLOCK FALSE
