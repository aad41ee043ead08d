SPECIFICATION Spec
CONSTANTS
  Party = {1, 2}
  R = 5
INVARIANTS Noticed Founded First Together Quiet Same
