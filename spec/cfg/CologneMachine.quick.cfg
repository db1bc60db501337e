SPECIFICATION Spec
CONSTANTS Alphabet = {65, 67, 72, 75, 83, 84, 88, 80}
 MaxLen = 4
 Emit = TRUE
INVARIANTS Right IgnoresCase Digits EmptyOnlyWithoutLetters
CHECK_DEADLOCK FALSE
