SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxSigners = 1
  MaxAttrs = 1
  MaxVals = 1
  MaxCerts = 1
  MaxCrls = 0
  Each = TRUE
  Pairs = FALSE
