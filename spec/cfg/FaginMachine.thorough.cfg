SPECIFICATION Spec
CONSTANTS Dims = {1, 2}
Count0 = 4
Emit = FALSE
INVARIANTS Sound Answered
PROPERTY Ends
CHECK_DEADLOCK FALSE
