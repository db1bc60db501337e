SPECIFICATION Spec
CONSTANTS Span = 6
Count = 5
K = 2
Radii = {0, 1, 3}
Emit = TRUE
INVARIANTS Heaps Sound ExactWhenFull
PROPERTY Decreases
CHECK_DEADLOCK FALSE
