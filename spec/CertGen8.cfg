SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Fams = {"cert"}
  MaxDev = 8
  Each = FALSE
