SPECIFICATION Spec
CONSTANTS
  Len0 = 40
  NT = 4
INVARIANT Out
CHECK_DEADLOCK FALSE
