SPECIFICATION Spec
CONSTANTS
  Ops = {1,2,3,4}
  Auto = FALSE
  Merge = 1
  MaxNotices = 5
INVARIANTS Valued NoSpurious OnePerNotice NoLost Consistent ManualAll MergeBound
CHECK_DEADLOCK FALSE
