SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTRAINT Progress
POSTCONDITION Report
