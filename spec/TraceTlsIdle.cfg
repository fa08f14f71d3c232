SPECIFICATION Spec
CONSTANTS Ends = {0, 1, 2, 3} Ops = {"r", "w", "h"} Lim <- TLim Rounds <- TRounds Asks <- TAsks Slack = 150 Late = 250
CONSTRAINT Report
CHECK_DEADLOCK FALSE
