SPECIFICATION Spec
CONSTANTS Tokens = {1, 2, 3}
          Rows = 2
          HashMax = 1
          MaxLen = 3
          Emit = TRUE
INVARIANTS UnionLaw SetOnly AgreeLaw
CHECK_DEADLOCK FALSE
