SPECIFICATION Spec
CONSTRAINT Report
CONSTANTS Loops = {0, 1}
 Longest = 100
 Grain = 2
CHECK_DEADLOCK FALSE
