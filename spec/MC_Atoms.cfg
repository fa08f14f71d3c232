SPECIFICATION Spec
CONSTANTS Base = 3 Threads = {1, 2} Vars = {1} Strings = {1} MaxCalls = 4 MaxRefs = 3
INVARIANTS FreedOnce FreedLast
PROPERTIES Refines
CHECK_DEADLOCK FALSE
