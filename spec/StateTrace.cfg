SPECIFICATION Spec
CONSTRAINT Progress
POSTCONDITION Accepted_
CHECK_DEADLOCK FALSE
