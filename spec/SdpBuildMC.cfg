SPECIFICATION Spec
CONSTANT MaxCalls = 2
INVARIANT OneLineEach
INVARIANT Defaults
INVARIANT Repeats
PROPERTY Stays
CHECK_DEADLOCK FALSE
