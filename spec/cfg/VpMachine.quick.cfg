SPECIFICATION Spec
CONSTANTS Span = 5
Count = 4
Radii = {0, 1, 2}
Bounds <- B_few
Emit = TRUE
INVARIANTS NeverPruned HitsSound Answer
CHECK_DEADLOCK FALSE
