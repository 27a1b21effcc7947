SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Ws = {0, 1, 7, 500, 4999}
INVARIANTS Total Inside Safe
CHECK_DEADLOCK FALSE
