SPECIFICATION Spec
CONSTANTS
  MaxRows = 3
  Flows = {0, 100, 250000}
  Temps = {5, 20, 93}
  Dts = {1, 150000}
INVARIANTS Telescopes Monotone Above Sign Water
CHECK_DEADLOCK FALSE
