SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2, 3}
          MaxLen = 4
          MaxK = 3
          Emit = FALSE
INVARIANTS TypeOK TrimSound BandSound Exact ReferenceSound NearSound
CHECK_DEADLOCK FALSE
