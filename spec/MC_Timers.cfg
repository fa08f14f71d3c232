SPECIFICATION Spec
CONSTANTS Loops = {1,2} Ids = {1,2} Delays = {0,2} MaxNow = 3 MaxStep = 1 Slack = 2 Pass = 1
INVARIANTS FireAllowed TickAllowed Kept
CHECK_DEADLOCK FALSE
