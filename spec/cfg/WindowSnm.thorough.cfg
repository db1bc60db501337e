SPECIFICATION Spec
CONSTANTS N = 5
          Ws = {1, 2, 3, 5}
          Ranks = 1
          Kinds = {"snm"}
          Emit = TRUE
INVARIANTS Answer Tiling InRange Monotone
CHECK_DEADLOCK FALSE
