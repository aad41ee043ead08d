SPECIFICATION Spec
CONSTANTS N = 3
          Tags = {"own", "twin", "other"}
INVARIANT Same
INVARIANT Caught
INVARIANT Done
