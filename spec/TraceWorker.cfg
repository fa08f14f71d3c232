SPECIFICATION Spec
CONSTRAINT Report
CONSTANTS MaxW = 0 MaxQ = 0
CHECK_DEADLOCK FALSE
