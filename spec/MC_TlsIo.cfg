SPECIFICATION Spec
CONSTANTS Ends = {0, 1} Cap = 1 Total = 3 Rec = {1, 2} Asks = {1, 3}
INVARIANTS NeverStuck WriterStuck Conserved InOrder HsFirst EndLast Agree
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
