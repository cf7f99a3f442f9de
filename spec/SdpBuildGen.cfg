SPECIFICATION Spec
CONSTANT Mode = "build"
CHECK_DEADLOCK FALSE
