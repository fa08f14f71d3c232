SPECIFICATION Spec
CONSTANTS Base = 65536 Threads = {0, 1, 2, 3}
CONSTRAINT Report
CHECK_DEADLOCK FALSE
