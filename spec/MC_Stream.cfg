SPECIFICATION Spec
CONSTANTS Ends = {0, 1} Datas = {"a", "bc"} Sizes = {1, 2} MaxSent = 3 MaxOps = 3 Writers = {0} Readers = {1}
INVARIANTS InOrder Conserved EndLast Once
PROPERTIES NoSpurious
CHECK_DEADLOCK FALSE
