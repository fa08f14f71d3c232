SPECIFICATION Spec
CONSTANTS Base = 2 Threads = {1, 2} Vars = {1} Strings = {} MaxCalls = 3 MaxRefs = 0
INVARIANTS Ring
PROPERTIES Answered
CHECK_DEADLOCK FALSE
