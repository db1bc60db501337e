SPECIFICATION Spec
CONSTANTS MaxChunks = 3
 Emit = TRUE
INVARIANTS Right Bounded NoStop OnlyKept Shorter Lowered NoMention NoHashtag
CHECK_DEADLOCK FALSE
