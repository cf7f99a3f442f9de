SPECIFICATION GSpec
CONSTANTS Limit = 65535
 Mode = "random"
CHECK_DEADLOCK FALSE
