SPECIFICATION Spec
CONSTANTS Emit = FALSE
PROPERTY Decided
CHECK_DEADLOCK FALSE
