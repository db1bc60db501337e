SPECIFICATION Spec
CONSTANTS Alphabet = {97, 66, 233, 189, 20140, 49, 45, 32, 9}
 MaxLen = 4
 Emit = TRUE
INVARIANTS PipelineRight IgnoresCase IgnoresOrder IgnoresRepetition Idempotent OnlyAlnum
CHECK_DEADLOCK FALSE
