SPECIFICATION Spec
CONSTANTS
  Chans = {1500, 2500, 4000}
  Mats = {"carbon", "stainless"}
  Corrs = {0, 3000}
  Plates = {4, 10, 40}
  Temps = {20000, 55000, 85000}
  Flows = {2000, 60000, 500000}
INVARIANT Limits Formula GrowsWithFlow GrowsWithArea SymmetricInSides Recognises
CHECK_DEADLOCK FALSE
