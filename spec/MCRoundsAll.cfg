SPECIFICATION Spec
CONSTANTS
    Party <- P3
    Traitor = {}
    Final = 2
    Lies <- NoLies
    MaxLie = 1
    Pay <- PayOf
    Accepts <- Agrees
INVARIANTS Delivery Exact Barrier
PROPERTY Finish
