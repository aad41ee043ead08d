SPECIFICATION Spec
INVARIANT Faithful
INVARIANT Complete
PROPERTY Finishes
