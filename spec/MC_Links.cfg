SPECIFICATION Spec
CONSTANTS Heads = {11, 12} Items = {1, 2, 3, 4} FHeads = {21}
INVARIANTS Agree Apart All
PROPERTIES Refines
CHECK_DEADLOCK FALSE
