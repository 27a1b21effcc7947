SPECIFICATION Spec
CONSTANTS
  Pool = 4
INVARIANT Out
CHECK_DEADLOCK FALSE
