SPECIFICATION Spec
CONSTANTS Dims = {1, 2}
 Count0 = 4
 Weights = {1, 3}
 Modes = {"leaders"}
 Emit = TRUE
INVARIANTS Once ListsExact LeadersGood Together
CHECK_DEADLOCK FALSE
