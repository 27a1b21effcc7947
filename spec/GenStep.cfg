SPECIFICATION Spec
CONSTANT Len0 = 24
INVARIANT Out
CHECK_DEADLOCK FALSE
