SPECIFICATION Spec
CONSTANTS Values = {1, 4}
          Depth = 5
          Emit = TRUE
INVARIANTS Summarises NeverNegative
CHECK_DEADLOCK FALSE
