SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2}
          MaxLen = 6
          MaxEdits = 2
          Emit = TRUE
INVARIANTS Reach FullKeysExact KeysSound KeysComplete DamKeysComplete DamKeysSound KnownIsMissed Blocks1Complete DamBlocks1Complete Blocks2Complete DamBlocks2Complete
CHECK_DEADLOCK FALSE
