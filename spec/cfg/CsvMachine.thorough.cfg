SPECIFICATION Spec
CONSTANTS MaxRows = 2
 MaxCell = 3
 Emit = TRUE
INVARIANTS Rectangular Joinable OneToOne Counted ClustersDisjoint
CHECK_DEADLOCK FALSE
