SPECIFICATION Spec
CONSTANTS N = 7 MaxQ = 3
INVARIANTS Adds
CHECK_DEADLOCK FALSE
