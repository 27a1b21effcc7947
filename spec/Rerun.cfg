SPECIFICATION Spec
CONSTANTS
  Comp = {T, dm, act, ctrl, series, plant, store}
  MaxRuns = 6
INVARIANTS Same StartsFresh
CHECK_DEADLOCK FALSE
