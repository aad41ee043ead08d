SPECIFICATION Spec
CONSTANTS Honest = {1, 2}
          Cheats = {3}
          Values = {0, 1}
INVARIANTS Fixed Opened Named Agree HonestBlame
