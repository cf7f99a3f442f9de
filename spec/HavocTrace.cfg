SPECIFICATION TSpec
CONSTANT ReplyTimeout = 2000
CONSTRAINT Report
CHECK_DEADLOCK FALSE
