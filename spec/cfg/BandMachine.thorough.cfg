SPECIFICATION Spec
CONSTANTS Universe = 3
Count = 3
Rows = 3
BandCounts = {1, 2, 3}
Thresholds <- T_two
Values = {1, 2}
Emit = TRUE
INVARIANTS Sound Identical Exact Finest
CHECK_DEADLOCK FALSE
