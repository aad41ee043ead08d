SPECIFICATION Spec
CONSTANTS
    Party <- P3
    Traitor = {2}
    Final = 1
    Lies <- SomeLies
    MaxLie = 1
    Pay <- PayOf
    Accepts <- Agrees
INVARIANTS Delivery Exact Barrier Foreign
