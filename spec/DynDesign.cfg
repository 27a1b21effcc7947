SPECIFICATION Spec
CONSTANTS
  Ds = {2, 3, 4, 8}
  Dts = {1, 2, 4, 8}
  Vals = {0, 3, 7}
  Len0 = 4
  Horizon = 24
INVARIANTS InRange Linear
CHECK_DEADLOCK FALSE
