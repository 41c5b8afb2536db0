SPECIFICATION Spec
CONSTANT Tags <- TagSet
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
