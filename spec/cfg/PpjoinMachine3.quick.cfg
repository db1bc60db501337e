SPECIFICATION Spec
CONSTANTS Universe = 3
          Count = 3
          Thresholds <- T_few
          Metrics = {"jaccard", "dice", "binary_cosine"}
          Variants = {"all_pairs", "ppjoin"}
          Emit = TRUE
INVARIANTS Sound Complete Partial Bounds
CHECK_DEADLOCK FALSE
