SPECIFICATION Spec
INVARIANTS Falls AirFalls Expands IdealGas AirPr Circuits Inverse Wrong Right Absolute
CHECK_DEADLOCK FALSE
