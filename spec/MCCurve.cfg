SPECIFICATION Spec
INVARIANT InGroup
INVARIANT Homomorphic
PROPERTY Refines
