SPECIFICATION Spec
CONSTANTS Addr = {1,2,3} Ids = {1,2,3}
INVARIANTS Disjoint CleanedOnce NothingWithoutPool
CHECK_DEADLOCK FALSE
