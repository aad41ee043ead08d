SPECIFICATION Spec
CONSTANTS
    Party <- P2
    Traitor = {2}
    Final = 2
    Lies <- SomeLies
    MaxLie = 2
    Pay <- PayOf
    Accepts <- Agrees
INVARIANTS Delivery Exact Barrier Foreign
