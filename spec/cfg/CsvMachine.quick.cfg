SPECIFICATION Spec
CONSTANTS MaxRows = 2
 MaxCell = 2
 Emit = TRUE
INVARIANTS Rectangular Joinable OneToOne Counted ClustersDisjoint
CHECK_DEADLOCK FALSE
