SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxDev = 1
  Each = TRUE
  Bases = {"p256"}
  Within = {}
