SPECIFICATION Spec
CONSTANTS Universe = 3
Count = 3
Thresholds <- T_some
Metrics = {"jaccard", "overlap"}
Emit = TRUE
INVARIANTS Counters Answer Order
CHECK_DEADLOCK FALSE
