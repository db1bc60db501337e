SPECIFICATION Spec
CONSTANTS N = 4
          ChunkSizes = {1, 2, 3, 4, 5}
          Workers = {w1, w2}
          Bounds <- B_one
          Emit = TRUE
INVARIANTS Tiling ForestSound Answer
PROPERTY Terminates
CHECK_DEADLOCK FALSE
