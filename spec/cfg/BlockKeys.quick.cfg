SPECIFICATION Spec
CONSTANTS N = 3
          K = 2
          Bounds <- B_few
          Kinds = {"single", "keys", "merge"}
          MaxKeys = 2
          Emit = TRUE
INVARIANTS PairsSound PairsComplete ForestSound Answer BucketsAreSets SingleKey
CHECK_DEADLOCK FALSE
