SPECIFICATION Spec
CONSTANTS
  Len0 = 24
  NAct = 4
INVARIANT Out
CHECK_DEADLOCK FALSE
