SPECIFICATION MSpec
CONSTANTS ReplyTimeout = 2000
 CloseTime = 1000
 Ws = FALSE
 MaxPlay = 1
 MaxClose = 1
 MaxFeed = 3
 MaxTick = 1
 MaxCtl = 0
 Gates = {"end"}
 Replies = {"ok1","no"}
INVARIANTS Grammar OneAtATime CSeqOk ReturnsOnce NotBoth EventsOk OkNeedsReplies Bounded StableBounded SidOk AuthOk MediaOk DiscOk ClosedOk GoneOk NobodyStuck
CHECK_DEADLOCK FALSE
