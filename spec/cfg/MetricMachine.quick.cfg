SPECIFICATION Spec
CONSTANTS Tokens = {1, 2, 3}
          Weights = {0, 1, 2}
          Emit = TRUE
INVARIANTS WeightedRight CosineRight SetsRight Laws
CHECK_DEADLOCK FALSE
