SPECIFICATION Spec
CONSTANTS Ends = {0, 1} Datas = {"ab"} Sizes = {2} MaxSent = 2 MaxOps = 2 Writers = {0, 1} Readers = {0, 1}
INVARIANTS InOrder Conserved EndLast Once
PROPERTIES NoSpurious
CHECK_DEADLOCK FALSE
