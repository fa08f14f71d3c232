SPECIFICATION Spec
CONSTRAINT Report
CONSTANTS Fresh = 30000 MaxErr = 10
CHECK_DEADLOCK FALSE
