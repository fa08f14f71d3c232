SPECIFICATION Spec
CONSTANTS Handles = {0, 1} Align <- MAlign MaxOps = 4 MaxLen = 2 MaxOff = 4
INVARIANTS Right PositionNotNegative NormalForm
CHECK_DEADLOCK FALSE
