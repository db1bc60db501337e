SPECIFICATION Spec
CONSTANTS Dims = {1, 2, 3}
Count0 = 3
Emit = FALSE
INVARIANTS Sound Answered
PROPERTY Ends
CHECK_DEADLOCK FALSE
