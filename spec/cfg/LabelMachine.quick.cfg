SPECIFICATION Spec
CONSTANTS Items = {1, 2, 3}
Labels = {1, 2, 3}
MaxLen = 3
Emit = TRUE
INVARIANTS Grouping FirstSeen RoundTrip Total
CHECK_DEADLOCK FALSE
