SPECIFICATION Spec
CONSTANTS Honest = {1, 2, 3}
          Cheats = {}
          Values = {0, 1, 2}
INVARIANTS Fixed Opened Named Agree HonestBlame
