SPECIFICATION Spec
CONSTANTS
  Focus = "dead"
  Len0 = 30
  NCtrl = 4
INVARIANT Out
CHECK_DEADLOCK FALSE
