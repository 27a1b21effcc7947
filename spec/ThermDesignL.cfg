SPECIFICATION Spec
INVARIANTS Accepts MaxPrinciple Equilibrium Mirror Recognises
CONSTANTS Temp = {0, 1, 2, 5}
 Flow <- FlowC
 Gs = {0, 1, 3}
CHECK_DEADLOCK FALSE
