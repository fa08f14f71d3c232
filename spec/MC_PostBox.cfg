SPECIFICATION Spec
CONSTANTS
  Ids = {1,2,3,4,5}
  MaxBatch = 5
INVARIANTS Once Promise NeverEmptyHanded
PROPERTIES Refines AllRun
CHECK_DEADLOCK FALSE
