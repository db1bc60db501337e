SPECIFICATION Spec
CONSTANTS Universe = 4
          Count = 2
          Thresholds <- T_all
          Metrics = {"jaccard", "dice", "binary_cosine"}
          Variants = {"all_pairs", "ppjoin"}
          Emit = TRUE
INVARIANTS Sound Complete Partial Bounds
CHECK_DEADLOCK FALSE
