SPECIFICATION Spec
CONSTANTS N = 4
          Bounds <- B_all
          Algorithms = {"fuzzy"}
          Emit = TRUE
INVARIANTS FuzzyRight RadiusSound LeaderRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
