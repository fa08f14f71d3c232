SPECIFICATION Spec
CONSTANT Fibers = {1,2,3,4,5}
INVARIANTS Exclusion OnePlace NoForgotten
PROPERTIES NoOvertake FreeGetsTaken
CHECK_DEADLOCK FALSE
