SPECIFICATION Spec
CONSTANTS Socks = {0, 1} MaxSends = 3 MaxRecvs = 3
INVARIANTS Right NotForgotten EndsAfterShut
PROPERTY Answered
CHECK_DEADLOCK FALSE
