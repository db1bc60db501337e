SPECIFICATION Spec
CONSTANTS Span = 7
Count = 5
K = 4
Radii = {1, 2}
Emit = TRUE
INVARIANTS Heaps Sound ExactWhenFull
PROPERTY Terminates Decreases
CHECK_DEADLOCK FALSE
