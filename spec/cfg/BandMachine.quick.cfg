SPECIFICATION Spec
CONSTANTS Universe = 2
Count = 2
Rows = 4
BandCounts = {1, 2, 3, 4}
Thresholds <- T_two
Values = {1, 2}
Emit = TRUE
INVARIANTS Sound Identical Exact Finest
CHECK_DEADLOCK FALSE
