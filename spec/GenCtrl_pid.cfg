SPECIFICATION Spec
CONSTANTS
  Focus = "pid"
  Len0 = 30
  NCtrl = 4
INVARIANT Out
CHECK_DEADLOCK FALSE
