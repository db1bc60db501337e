SPECIFICATION Spec
CONSTANTS Alphabet = {65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90}
 MaxLen = 3
 Emit = TRUE
INVARIANTS Right IgnoresCase Digits EmptyOnlyWithoutLetters
CHECK_DEADLOCK FALSE
