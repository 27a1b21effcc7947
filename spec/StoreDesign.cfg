SPECIFICATION Spec
CONSTANTS
  MaxRows = 3
  MaxT = 5
  Vs = {0, 7}
  Fs = {1, 2, 3}
  Offs = {0, 1}
  MaxN = 3
INVARIANTS Exists SliceDistinct Range Axis Finest
CHECK_DEADLOCK FALSE
