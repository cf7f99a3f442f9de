SPECIFICATION Spec
CONSTANT MaxMedia = 1
CONSTANT MaxTiming = 1
INVARIANT Accepted
INVARIANT Back
INVARIANT Refused
CHECK_DEADLOCK FALSE
