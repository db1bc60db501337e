SPECIFICATION Spec
CONSTANTS Values = {1, 4}
          Depth = 4
          Emit = TRUE
INVARIANTS Summarises NeverNegative
CHECK_DEADLOCK FALSE
