SPECIFICATION Spec
CONSTANTS Fib = {1,2} Joins = {1,2,3} MaxRef = 2
INVARIANTS ReclaimedOnce ReclaimedLate JoinSeesEnd FailedNeverRuns
PROPERTIES Refine JoinsEnd
CHECK_DEADLOCK FALSE
