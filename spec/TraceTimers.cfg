SPECIFICATION Spec
CONSTRAINT Report
CONSTANTS Slack = 260 Pass = 110
CHECK_DEADLOCK FALSE
