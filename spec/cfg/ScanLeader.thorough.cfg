SPECIFICATION Spec
CONSTANTS N = 5
          Bounds <- B_few
          Algorithms = {"leader"}
          Emit = TRUE
INVARIANTS FuzzyRight RadiusSound LeaderRight
CHECK_DEADLOCK FALSE
