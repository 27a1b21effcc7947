SPECIFICATION Spec
INVARIANTS Within Met Monotone Compl
CONSTANT D <- DSet
CHECK_DEADLOCK FALSE
