SPECIFICATION Spec
CONSTANTS
  Fibers = {1,2,3,4}
  MaxLimit = 3
INVARIANTS TypeOK Disjoint Progress
PROPERTIES GrantBounded NoHolderLost
CHECK_DEADLOCK FALSE
