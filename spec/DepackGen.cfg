SPECIFICATION Spec
CONSTANT Profile = "264"
CONSTANT Sizes = "small"
CONSTANT Noise = 10
CHECK_DEADLOCK FALSE
