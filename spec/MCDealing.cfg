SPECIFICATION Spec
CONSTANTS N = 2
          Tags = {"own", "twin", "other", "gone", "junk"}
INVARIANT Same
INVARIANT Caught
INVARIANT Done
