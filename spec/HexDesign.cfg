SPECIFICATION Spec
INVARIANTS Accepts Swapped Sum Recognises
PROPERTY Closer
CONSTANTS Flow <- FlowC
 T0 = {0, 512}
CHECK_DEADLOCK FALSE
