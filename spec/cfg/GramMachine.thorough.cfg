SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2, 3}
 MaxLen = 6
 MaxN = 5
 Emit = TRUE
INVARIANTS Right JoinInverse NeverEmpty KeysGrow
CHECK_DEADLOCK FALSE
