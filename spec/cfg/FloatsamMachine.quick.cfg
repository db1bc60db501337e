SPECIFICATION Spec
CONSTANTS N = 4
          Weights = {1, 2, 3}
          Starts = {0, 2}
          Rates = {1, 2}
          Drifters <- D_all
          Emit = TRUE
INVARIANTS Right Safe EdgesRemain
PROPERTY Terminates
CHECK_DEADLOCK FALSE
