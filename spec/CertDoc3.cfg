SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Fams = {"cert"}
  MaxDev = 3
  Each = FALSE
