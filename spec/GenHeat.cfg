SPECIFICATION Spec
CONSTANTS
  Len0 = 16
  NH = 3
INVARIANT Out
CHECK_DEADLOCK FALSE
