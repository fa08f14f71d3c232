SPECIFICATION Spec
CONSTANTS Loops = {0}
 Longest = 3
 Grain = 0
 Ids = {1, 2, 3, 4}
 Answers = {0, 1, 2, 5}
 MaxT = 7
INVARIANTS CallAllowed TurnComplete WaitBounded
CHECK_DEADLOCK FALSE
