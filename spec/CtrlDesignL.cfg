SPECIFICATION Spec
CONSTANTS
  Kinds = {"bb", "ts", "pid"}
  Deps = {"none", "concurrent", "sequential"}
  Deads = {0, 40}
  Slopes = {0, 200000}
  Steps = 4
  DTs = {16, 64}
INVARIANTS InSaturation ActuatorInLimits TwoPoint Obeys IntegralBound
PROPERTIES SlopeBound
CHECK_DEADLOCK FALSE
