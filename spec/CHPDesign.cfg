SPECIFICATION Spec
CONSTANTS
  Us = {0, 3, 4, 6, 9}
  Dts = {1, 2, 4}
  Horizon = 12
INVARIANT Safe
CHECK_DEADLOCK FALSE
