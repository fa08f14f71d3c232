SPECIFICATION Spec
CONSTANTS Names = {0, 3, 4} Handles = {0} Size0 = 3 MaxFiles = 2 MaxPos = 3
INVARIANTS Sane
PROPERTIES AllAsOne Keeps Stays Ends
CONSTRAINT Small
CHECK_DEADLOCK FALSE
