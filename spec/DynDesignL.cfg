SPECIFICATION Spec
CONSTANTS
  Ds = {1, 2, 3, 4, 5, 6, 8, 12}
  Dts = {1, 2, 4, 8}
  Vals = {0, 3, 7}
  Len0 = 5
  Horizon = 40
INVARIANTS InRange Linear
CHECK_DEADLOCK FALSE
