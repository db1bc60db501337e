SPECIFICATION Spec
CONSTANTS Span = 6
Count = 5
Radii = {0, 1, 2, 4}
Emit = TRUE
INVARIANTS Sound NeverLost Cheaper
PROPERTY Terminates
CHECK_DEADLOCK FALSE
