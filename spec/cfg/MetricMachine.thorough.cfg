SPECIFICATION Spec
CONSTANTS Tokens = {1, 2, 3, 4}
          Weights = {0, 1, 3}
          Emit = TRUE
INVARIANTS WeightedRight CosineRight SetsRight Laws
CHECK_DEADLOCK FALSE
