SPECIFICATION Spec
CONSTANTS N = 5
          Bounds <- B_few
          Algorithms = {"fuzzy"}
          Emit = TRUE
INVARIANTS FuzzyRight RadiusSound LeaderRight
CHECK_DEADLOCK FALSE
