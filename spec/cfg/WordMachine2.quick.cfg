SPECIFICATION Spec
CONSTANTS Vocabulary <- V_words
 MaxChunks = 3
 Emit = TRUE
INVARIANTS Covered NoEmpty Typed HashPartition
PROPERTY Progress
CHECK_DEADLOCK FALSE
