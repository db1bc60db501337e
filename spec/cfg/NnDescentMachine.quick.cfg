SPECIFICATION Spec
CONSTANTS Span = 5
Count = 4
K = 2
Radii = {1, 2}
Emit = TRUE
INVARIANTS Heaps Sound ExactWhenFull
PROPERTY Terminates Decreases
CHECK_DEADLOCK FALSE
