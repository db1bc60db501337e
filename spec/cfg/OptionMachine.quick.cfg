SPECIFICATION Spec
CONSTANTS MaxChunks = 2
 Emit = TRUE
INVARIANTS Right Bounded NoStop OnlyKept Shorter Lowered NoMention NoHashtag
CHECK_DEADLOCK FALSE
