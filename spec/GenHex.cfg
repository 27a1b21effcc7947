SPECIFICATION Spec
CONSTANTS
  Pool = 8
  Len0 = 16
INVARIANT Out
CHECK_DEADLOCK FALSE
