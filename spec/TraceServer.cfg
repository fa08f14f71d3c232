SPECIFICATION Spec
CONSTANTS Clients = {0, 1, 2, 3, 4, 5, 6, 7}
CONSTRAINT Report
CHECK_DEADLOCK FALSE
