SPECIFICATION Spec
CONSTANTS N = 3
          T = 3
          As = {0,1}
          Bs = {1}
          Coefs <- Cs33
INVARIANT Degree
INVARIANT Combined
INVARIANT Revealed
