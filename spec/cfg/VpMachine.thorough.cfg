SPECIFICATION Spec
CONSTANTS Span = 6
Count = 5
Radii = {0, 1, 2, 3}
Bounds <- B_few
Emit = TRUE
INVARIANTS NeverPruned HitsSound Answer
CHECK_DEADLOCK FALSE
