SPECIFICATION Spec
CONSTANTS Fib = {1,2,3} MaxOps = 5
INVARIANTS NoCycle ToWaiters OnePost
PROPERTY Refine
CHECK_DEADLOCK FALSE
