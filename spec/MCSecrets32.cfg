SPECIFICATION Spec
CONSTANTS N = 3
          T = 2
          As = {0,1,4}
          Bs = {0,1}
          Coefs <- Cs32
INVARIANT Degree
INVARIANT Combined
INVARIANT Revealed
