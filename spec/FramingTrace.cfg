SPECIFICATION TSpec
CONSTANT Limit = 65535
CONSTRAINT Report
CHECK_DEADLOCK FALSE
