CONSTANTS N = 3
Most = 4
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS Rising Unused Alike
CHECK_DEADLOCK FALSE
