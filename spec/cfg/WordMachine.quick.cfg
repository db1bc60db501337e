SPECIFICATION Spec
CONSTANTS Vocabulary <- V_chars
 MaxChunks = 4
 Emit = TRUE
INVARIANTS Covered NoEmpty Typed HashPartition
PROPERTY Progress
CHECK_DEADLOCK FALSE
