CONSTANTS N = 3
T = 2
Messages = {0, 4}
SPECIFICATION Spec
INVARIANTS AsSpecified Right Same
CHECK_DEADLOCK FALSE
