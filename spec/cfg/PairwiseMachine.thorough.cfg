SPECIFICATION Spec
CONSTANTS N = 5
          ChunkSizes = {2, 3, 4, 6}
          Workers = {w1, w2, w3}
          Bounds <- B_few
          Emit = TRUE
INVARIANTS Tiling ForestSound Answer
CHECK_DEADLOCK FALSE
