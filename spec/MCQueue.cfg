CONSTANTS N = 2
Most = 5
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS Rising Unused Alike
CHECK_DEADLOCK FALSE
