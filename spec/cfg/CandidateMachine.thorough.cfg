SPECIFICATION Spec
CONSTANTS Dims = {1, 2, 3}
 Count0 = 4
 Weights = {1}
 Modes = {"lists", "leaders"}
 Emit = TRUE
INVARIANTS Once ListsExact LeadersGood Together
CHECK_DEADLOCK FALSE
