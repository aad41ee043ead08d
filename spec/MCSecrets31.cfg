SPECIFICATION Spec
CONSTANTS N = 3
          T = 1
          As = {0,1,2,3,4}
          Bs = {0,1}
          Coefs <- Cs31
INVARIANT Degree
INVARIANT Combined
INVARIANT Revealed
