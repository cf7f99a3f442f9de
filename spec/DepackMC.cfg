SPECIFICATION Spec
CONSTANT MaxUnits = 2
CONSTANT MaxBody = 2
CONSTANT Codecs <- Codecs264
INVARIANT Exact
INVARIANT Clean
CHECK_DEADLOCK FALSE
