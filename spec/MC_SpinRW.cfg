SPECIFICATION Spec
CONSTANT Threads = {1,2,3,4}
INVARIANTS Exclusion NoDeadlock BlockSound
CHECK_DEADLOCK FALSE
