SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2, 3}
          MaxLen = 3
          MaxK = 2
          Emit = TRUE
INVARIANTS TypeOK TrimSound BandSound Exact ReferenceSound NearSound
CHECK_DEADLOCK FALSE
