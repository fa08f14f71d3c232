SPECIFICATION Spec
CONSTANTS Keys = {0} MaxL = 4 MaxQ = 3 MaxT = 7 Fails = TRUE Fresh = 2 MaxErr = 2
INVARIANTS AnswerAllowed BeginAllowed Counted
CHECK_DEADLOCK FALSE
