SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2}
          MaxLen = 5
          MaxK = 5
          Emit = TRUE
INVARIANTS TypeOK TrimSound BandSound Exact ReferenceSound NearSound
CHECK_DEADLOCK FALSE
