SPECIFICATION Spec
CONSTANTS Ends = {0, 1, 2, 3, 4, 5}
CONSTRAINT Report
CHECK_DEADLOCK FALSE
