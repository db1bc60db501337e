SPECIFICATION Spec
CONSTANTS Span = 9
          Count = 6
          Radii = {0, 1, 2, 4}
          BlockSize = 2
          Emit = TRUE
INVARIANTS NeverLost Sound Exact
CHECK_DEADLOCK FALSE
