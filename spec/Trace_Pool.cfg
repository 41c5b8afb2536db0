SPECIFICATION Spec
CONSTRAINT Progress
POSTCONDITION Report
INVARIANTS AcceptedAccountedFor NothingTwice BoundedWorkers NothingLost
CHECK_DEADLOCK FALSE
