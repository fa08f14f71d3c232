SPECIFICATION Spec
CONSTANTS Gap = 2 MaxLoops = 4 Reqs = {0, 1, 3, 5} Works = {1} MaxCnt = 3 MaxPicks = 5
INVARIANTS Size AlwaysChoice Spread WorkValid
PROPERTIES Kept NotBusier
CHECK_DEADLOCK FALSE
