SPECIFICATION Spec
CONSTANTS Handles = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11} Align <- TAlign
CONSTRAINT Report
CHECK_DEADLOCK FALSE
