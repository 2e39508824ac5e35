SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Fams = {"cert"}
  MaxDev = 1
  Each = TRUE
