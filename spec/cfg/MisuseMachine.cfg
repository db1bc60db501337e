SPECIFICATION Spec
CONSTANTS Emit = TRUE
INVARIANTS NothingProducedWhenRefused RefusedExactly
CHECK_DEADLOCK FALSE
