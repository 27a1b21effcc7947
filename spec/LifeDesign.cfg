SPECIFICATION Spec
INVARIANTS Ran Refused
CONSTANTS Free = 4
 CheckDup = TRUE
 CheckBC = TRUE
CHECK_DEADLOCK FALSE
