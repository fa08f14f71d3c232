SPECIFICATION Spec
CONSTANTS Names = {0, 3, 4} Handles = {0, 1} Size0 = 2 MaxFiles = 2 MaxPos = 2
INVARIANTS Sane
PROPERTIES AllAsOne Keeps Stays
CONSTRAINT Small
CHECK_DEADLOCK FALSE
