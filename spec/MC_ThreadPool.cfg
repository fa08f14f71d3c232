SPECIFICATION Spec
CONSTANTS Jobs = {1,2,3} Threads = {11,12,13} Keep = 0 Slack = 0
INVARIANTS Counts NeverInterrupted RunAllowed IdleExact
PROPERTIES EachDone
CHECK_DEADLOCK FALSE
