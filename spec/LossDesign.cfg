SPECIFICATION Spec
INVARIANTS Sign Grows Balance Insulation CapacityGrows Symmetric Recognises
CONSTANTS Kinds = {"pipe", "tes"}
 Sins = {10, 50, 300}
 Lins = {30, 200}
 Ambs = {0, 30}
 Temps = {5, 40, 90}
 Dxs = {100, 200}
CHECK_DEADLOCK FALSE
