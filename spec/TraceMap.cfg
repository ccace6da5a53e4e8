SPECIFICATION Spec
CONSTANT Judge = {"ret", "obs", "root"}
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
