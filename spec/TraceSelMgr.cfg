SPECIFICATION Spec
CONSTANTS Gap = 64 MaxLoops = 64
CONSTRAINT Report
CHECK_DEADLOCK FALSE
