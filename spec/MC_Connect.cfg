SPECIFICATION Spec
CONSTANTS Attempts = {0, 1} Lim <- MLim Slack = 0 Late = 0 Soon = 0 MaxT = 6 MaxR = 1
INVARIANTS OnceInList Sorted NotLate NeverStuck Watched
CHECK_DEADLOCK FALSE
