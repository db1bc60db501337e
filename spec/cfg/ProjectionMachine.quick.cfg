SPECIFICATION Spec
CONSTANTS N = 3
          M = 2
          Weights = {0, 1, 2}
          Metrics = {"none", "jaccard", "overlap", "dice", "binary_cosine", "cosine"}
          Thresholds <- T_all
          Emit = TRUE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
