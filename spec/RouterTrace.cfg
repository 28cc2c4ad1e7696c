SPECIFICATION Spec
CONSTANT None = ""
CHECK_DEADLOCK FALSE
CONSTRAINT Progress
POSTCONDITION Report
