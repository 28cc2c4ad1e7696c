SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Progress
POSTCONDITION Report
