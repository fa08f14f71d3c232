SPECIFICATION Spec
CONSTANTS Jobs = {1,2,3} Creators = 1 MaxW = 2 MaxQ = 1
INVARIANTS Limit NoIdle FreedLate WaitQ
PROPERTIES EachRuns
CHECK_DEADLOCK FALSE
