SPECIFICATION Spec
CONSTANTS
  Party = {1, 2, 3}
  R = 2
INVARIANTS Noticed Founded First Together Quiet Same
