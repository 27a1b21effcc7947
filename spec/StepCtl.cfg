SPECIFICATION Spec
CONSTANTS
  HMin = 2
  HMax = 24
  H0 = 10
  MaxF = 2000000
  MinF = 200000
  Rec = 4
  Safe = 900000
  TEnd = 60
CONSTRAINT Bounded
INVARIANTS TypeOK StepsInRange
PROPERTIES RejectShrinks GrowBounded TimeIsSum
CHECK_DEADLOCK FALSE
