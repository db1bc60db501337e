SPECIFICATION Spec
CONSTANTS Tokens = {1, 2, 3}
          Rows = 1
          HashMax = 2
          MaxLen = 3
          Emit = TRUE
INVARIANTS UnionLaw SetOnly AgreeLaw
CHECK_DEADLOCK FALSE
