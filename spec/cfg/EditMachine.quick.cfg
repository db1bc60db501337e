SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2}
          MaxLen = 4
          MaxK = 3
          Emit = TRUE
INVARIANTS TypeOK TrimSound BandSound Exact ReferenceSound NearSound
CHECK_DEADLOCK FALSE
