SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxK = 14
INVARIANTS Whole Bounded Indexed Agrees
CHECK_DEADLOCK FALSE
