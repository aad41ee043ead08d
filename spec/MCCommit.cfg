SPECIFICATION Spec
CONSTANT HLogs = {0, 1, 13}
INVARIANT Homomorphic
INVARIANT Exact
