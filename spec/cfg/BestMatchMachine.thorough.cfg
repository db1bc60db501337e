SPECIFICATION Spec
CONSTANTS Items = {1, 2, 3, 4, 5}
          MaxClusters = 3
          Emit = TRUE
INVARIANTS Right InRange Perfect
CHECK_DEADLOCK FALSE
