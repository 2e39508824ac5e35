SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxSigners = 3
  MaxAttrs = 4
  MaxVals = 2
  MaxCerts = 4
  MaxCrls = 2
  Each = FALSE
  Pairs = FALSE
