SPECIFICATION Spec
CONSTANT Mode = "msg"
CHECK_DEADLOCK FALSE
