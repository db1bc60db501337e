SPECIFICATION Spec
CONSTANTS N = 3
          K = 2
          Bounds <- B_one
          Kinds = {"block", "single"}
          MaxKeys = 2
          Emit = FALSE
INVARIANTS PairsSound PairsComplete ForestSound Answer BucketsAreSets SingleKey
PROPERTY Terminates
CHECK_DEADLOCK FALSE
