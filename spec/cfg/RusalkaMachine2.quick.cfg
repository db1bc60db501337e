SPECIFICATION Spec
CONSTANTS Alphabet = {121, 101, 105, 111, 117, 107, 115, 112, 104}
 MaxLen = 4
 Emit = TRUE
INVARIANTS Right IgnoresCase SameF NoVowels Rewritten
CHECK_DEADLOCK FALSE
