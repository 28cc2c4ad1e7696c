SPECIFICATION Spec
CONSTANTS
  Ids = {"p", "q"}
  Vals = {"1", "2"}
  MaxLog = 3
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS TypeOK Script Chain
PROPERTY FailuresChangeNothing
