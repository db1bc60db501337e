SPECIFICATION Spec
CONSTANTS Alphabet = {99, 101, 104, 105, 106, 107, 115, 116, 122, 118}
 MaxLen = 5
 Emit = TRUE
INVARIANTS Right IgnoresCase SameF NoVowels Rewritten
CHECK_DEADLOCK FALSE
