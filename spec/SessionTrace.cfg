SPECIFICATION TSpec
CONSTANTS ReplyTimeout = 2000
 CloseTime = 1000
CONSTRAINT Report
CHECK_DEADLOCK FALSE
