SPECIFICATION Spec
CONSTANTS Keep = 60000 Slack = 1000
CONSTRAINT Report
CHECK_DEADLOCK FALSE
