SPECIFICATION Spec
CONSTANTS Attempts = {0, 1, 2, 3, 4, 5} Lim <- TLim Slack = 150 Late = 250 Soon = 250
CONSTRAINT Report
CHECK_DEADLOCK FALSE
