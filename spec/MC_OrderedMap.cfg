SPECIFICATION Spec
CONSTANTS K = {1,2,3,4,5,6} V = {11,12}
INVARIANTS IsDict FullIteration
PROPERTIES Frame
CHECK_DEADLOCK FALSE
