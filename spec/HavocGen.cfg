SPECIFICATION GSpec
CONSTANTS ReplyTimeout = 2000
 Ws = FALSE
CHECK_DEADLOCK FALSE
