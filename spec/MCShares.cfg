CONSTANTS N = 3
T = 2
Rs = {0, 3}
SPECIFICATION Spec
INVARIANTS Hidden Once Twice
CHECK_DEADLOCK FALSE
