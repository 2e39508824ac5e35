SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxSigners = 1
  MaxAttrs = 2
  MaxVals = 1
  MaxCerts = 0
  MaxCrls = 0
  Each = TRUE
  Pairs = TRUE
