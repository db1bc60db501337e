SPECIFICATION Spec
CONSTANTS N = 4
          Ws = {1, 2, 3, 5}
          Ranks = 2
          Kinds = {"snm"}
          Emit = TRUE
INVARIANTS Answer Tiling InRange Monotone
CHECK_DEADLOCK FALSE
