SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
  MaxT = 7
  Vs = {0, 3, 7}
  Fs = {1, 2, 3, 5}
  Offs = {0, 1}
  MaxN = 2
INVARIANTS Exists SliceDistinct Range Axis Finest
CHECK_DEADLOCK FALSE
