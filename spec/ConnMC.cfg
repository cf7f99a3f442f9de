SPECIFICATION MSpec
CONSTANTS SendTimeout = 5000
 Rto = 0
 Cap = 1
 MaxMsgs = 2
 MaxCalls = 3
 MaxFeed = 1
 Ticks = 1
 Gates = {"w","h"}
INVARIANTS WrittenIsAcceptedPrefix CloseAfterWrites CallsBounded NobodyStuck EventOrder StatusOk NothingLeft ClosedGoesDown SilenceEnds NoTimeoutElsewhere NoTimeoutWithout
CHECK_DEADLOCK FALSE
