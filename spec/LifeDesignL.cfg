SPECIFICATION Spec
INVARIANTS Ran Refused
CONSTANTS Free = 5
 CheckDup = TRUE
 CheckBC = TRUE
CHECK_DEADLOCK FALSE
