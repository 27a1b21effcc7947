SPECIFICATION GSpec
CONSTANTS
  MaxCirc = 4
  Kinds = {"flow", "ts", "pump", "heat", "valve", "split", "tes", "chp", "hex"}
INVARIANT GOut
