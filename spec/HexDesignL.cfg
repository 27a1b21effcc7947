SPECIFICATION Spec
INVARIANTS Accepts Swapped Sum Recognises
PROPERTY Closer
CONSTANTS Flow <- FlowC
 T0 = {0, 256, 512, 2048}
CHECK_DEADLOCK FALSE
