SPECIFICATION Spec
CONSTANT Mode = "random"
CHECK_DEADLOCK FALSE
