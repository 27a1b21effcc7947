SPECIFICATION Spec
CONSTANTS
  Len0 = 60
INVARIANT Out
CHECK_DEADLOCK FALSE
