SPECIFICATION Spec
CONSTANTS N = 4
          K = 2
          Bounds <- B_one
          Kinds = {"block"}
          MaxKeys = 2
          Emit = TRUE
INVARIANTS PairsSound PairsComplete ForestSound Answer BucketsAreSets SingleKey
CHECK_DEADLOCK FALSE
