SPECIFICATION MSpec
CONSTANTS Limit = 6
 MaxMsgs = 3
INVARIANTS SameAsAbstract DeadOnlyIfTooLong DeadIfTooLong
CHECK_DEADLOCK FALSE
