SPECIFICATION Spec
CONSTANTS Ends = {0, 1} Datas = {"a", "bc"} Sizes = {1, 2} MaxOps = 3 Match = TRUE Accepts = TRUE
INVARIANTS InOrder HsFirst Agree RawNever Refused EndLast
CHECK_DEADLOCK FALSE
