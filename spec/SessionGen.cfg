SPECIFICATION GSpec
CONSTANTS ReplyTimeout = 2000
 CloseTime = 1000
 Ws = FALSE
 Profile = "hand"
 OkPct = 85
CHECK_DEADLOCK FALSE
