SPECIFICATION Spec
CONSTANTS Ends = {0, 1} Cap = 2 MaxOps = 3
INVARIANTS Right InOrder PositionTells
CHECK_DEADLOCK FALSE
