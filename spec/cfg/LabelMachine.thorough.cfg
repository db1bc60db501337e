SPECIFICATION Spec
CONSTANTS Items = {1, 2, 3, 4}
Labels = {1, 2, 3, 4}
MaxLen = 4
Emit = TRUE
INVARIANTS Grouping FirstSeen RoundTrip Total
CHECK_DEADLOCK FALSE
