SPECIFICATION Spec
CONSTANTS Handles = {0} Align <- MAlign MaxOps = 5 MaxLen = 3 MaxOff = 4
INVARIANTS Right PositionNotNegative NormalForm
CHECK_DEADLOCK FALSE
