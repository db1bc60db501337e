SPECIFICATION Spec
CONSTANTS N = 4
          Ws = {2, 3}
          Ranks = 1
          Kinds = {"snm", "asnm"}
          Emit = FALSE
INVARIANTS Answer Tiling InRange Monotone
PROPERTY Terminates
CHECK_DEADLOCK FALSE
