SPECIFICATION Spec
CONSTANTS N = 2
          T = 2
          As = {0,1,2,3,4}
          Bs = {0,1,4}
          Coefs <- Cs22
INVARIANT Degree
INVARIANT Combined
INVARIANT Revealed
