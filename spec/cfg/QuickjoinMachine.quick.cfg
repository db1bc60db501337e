SPECIFICATION Spec
CONSTANTS Span = 7
          Count = 5
          Radii = {0, 1, 2, 4}
          BlockSize = 2
          Emit = TRUE
INVARIANTS NeverLost Sound Exact
CHECK_DEADLOCK FALSE
