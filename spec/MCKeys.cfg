SPECIFICATION Spec
INVARIANT Intact
INVARIANT Welcome
