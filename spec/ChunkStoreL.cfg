SPECIFICATION Spec
CONSTANTS
  MaxN = 40
  MaxK = 120
INVARIANTS Whole Bounded Indexed Agrees
CHECK_DEADLOCK FALSE
