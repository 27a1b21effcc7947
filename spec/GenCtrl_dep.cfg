SPECIFICATION Spec
CONSTANTS
  Focus = "dep"
  Len0 = 30
  NCtrl = 4
INVARIANT Out
CHECK_DEADLOCK FALSE
