SPECIFICATION Spec
CONSTANTS N = 5
          Ws = {2, 3}
          Ranks = 1
          Kinds = {"asnm"}
          Emit = TRUE
INVARIANTS Answer Tiling InRange Monotone
CHECK_DEADLOCK FALSE
