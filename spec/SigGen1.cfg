SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxDev = 1
  Each = TRUE
