SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Progress
POSTCONDITION Report
CONSTANTS Default = 50
 Max = 1000
