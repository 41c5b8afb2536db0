SPECIFICATION Spec
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
