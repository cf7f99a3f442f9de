SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANTS OneResult OneEnd Where Success Data
CHECK_DEADLOCK FALSE
