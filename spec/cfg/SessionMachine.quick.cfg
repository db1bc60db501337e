SPECIFICATION Spec
CONSTANTS MaxActs = 6
 MaxOpen = 2
 MaxAnswers = 2
 Emit = TRUE
INVARIANTS Isolated Alone
CHECK_DEADLOCK FALSE
