SPECIFICATION Spec
CONSTANTS Span = 9
Count = 6
Radii = {0, 1, 2, 4}
Emit = TRUE
INVARIANTS Sound NeverLost Cheaper
CHECK_DEADLOCK FALSE
