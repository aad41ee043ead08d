SPECIFICATION Spec
CONSTANTS N = 4
          T = 2
          As = {0,1}
          Bs = {0,1}
          Coefs <- Cs42
INVARIANT Degree
INVARIANT Combined
INVARIANT Revealed
