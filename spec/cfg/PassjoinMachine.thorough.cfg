SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2}
          MaxLen = 6
          Count = 2
          Ks = {0, 1, 2, 3}
          Emit = TRUE
INVARIANTS Exact Tile
CHECK_DEADLOCK FALSE
