SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxDev = 2
  Each = TRUE
