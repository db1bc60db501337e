SPECIFICATION Spec
CONSTANTS NL = 2
NR = 2
K = 2
MaxKeys = 2
Emit = TRUE
INVARIANTS OnceEach Sound Complete
CHECK_DEADLOCK FALSE
