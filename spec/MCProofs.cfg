SPECIFICATION Spec
CONSTANT Q = 5
INVARIANT OnlyLuck
