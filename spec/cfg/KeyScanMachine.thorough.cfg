SPECIFICATION Spec
CONSTANTS Alphabet = {65, 101, 69, 66, 114, 45, 106}
 MaxLen = 5
 Emit = TRUE
INVARIANTS OmissionRight SkeletonRight IgnoresCase IgnoresRepeats SameLetters Unique Idempotent
CHECK_DEADLOCK FALSE
