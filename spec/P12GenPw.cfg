SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxDev = 2
  Each = TRUE
  Bases = {"sm2"}
  Within = {"pw", "dpw"}
