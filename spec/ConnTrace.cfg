SPECIFICATION TSpec
CONSTANT SendTimeout = 5000
CONSTRAINT Report
CHECK_DEADLOCK FALSE
