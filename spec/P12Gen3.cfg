SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxDev = 3
  Each = FALSE
  Bases = {"sm2", "p256", "rsa"}
  Within = {}
