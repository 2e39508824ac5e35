SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxDev = 3
  Each = FALSE
