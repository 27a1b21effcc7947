SPECIFICATION Spec
CONSTANTS
  Focus = "twopoint"
  Len0 = 30
  NCtrl = 4
INVARIANT Out
CHECK_DEADLOCK FALSE
