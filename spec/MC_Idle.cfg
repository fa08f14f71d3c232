SPECIFICATION Spec
CONSTANTS Ends = {0, 1} Ops = {"r", "w"} Lim <- MLim Rounds <- MRounds Asks <- MAsks Slack = 0 Late = 0 MaxT = 9
INVARIANTS Sorted OnceInList Watched NotLate NeverStuck
CHECK_DEADLOCK FALSE
