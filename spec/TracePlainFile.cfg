SPECIFICATION Spec
CONSTANTS Names = {0, 1, 2, 3, 4} Handles = {0, 1, 2, 3}
CONSTRAINT Report
CHECK_DEADLOCK FALSE
