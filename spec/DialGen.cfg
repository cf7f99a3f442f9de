SPECIFICATION GSpec
CONSTANTS SlowPct = 0
CHECK_DEADLOCK FALSE
