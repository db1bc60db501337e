SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2, 3}
 MaxLen = 5
 MaxN = 4
 Emit = TRUE
INVARIANTS Right JoinInverse NeverEmpty KeysGrow
CHECK_DEADLOCK FALSE
