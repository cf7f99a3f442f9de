SPECIFICATION HMSpec
CONSTANTS ReplyTimeout = 2000
 CloseTime = 1000
 Ws = FALSE
 MaxPlay = 1
 MaxClose = 1
 MaxFeed = 3
 MaxTick = 1
 MaxCtl = 0
 Gates = {"end"}
 Replies = {"ok1","no"}
INVARIANTS Owes Closing Gone
PROPERTY Seen
CHECK_DEADLOCK FALSE
