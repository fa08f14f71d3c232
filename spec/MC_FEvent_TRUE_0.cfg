SPECIFICATION Spec
CONSTANTS
  Ops = {1,2,3,4}
  Auto = TRUE
  Merge = 0
  MaxNotices = 5
INVARIANTS Valued NoSpurious OnePerNotice NoLost Consistent ManualAll MergeBound
CHECK_DEADLOCK FALSE
