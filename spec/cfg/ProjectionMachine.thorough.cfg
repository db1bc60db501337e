SPECIFICATION Spec
CONSTANTS N = 3
          M = 3
          Weights = {1, 2}
          Metrics = {"none", "jaccard", "cosine", "overlap"}
          Thresholds <- T_all
          Emit = TRUE
INVARIANT Agrees
CHECK_DEADLOCK FALSE
