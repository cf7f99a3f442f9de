SPECIFICATION GSpec
CONSTANTS SendTimeout = 5000
 Profile = "send"
CHECK_DEADLOCK FALSE
