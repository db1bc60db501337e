SPECIFICATION Spec
CONSTANTS MaxActs = 7
 MaxOpen = 2
 MaxAnswers = 3
 Emit = TRUE
INVARIANTS Isolated Alone
CHECK_DEADLOCK FALSE
