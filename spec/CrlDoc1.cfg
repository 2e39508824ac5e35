SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Fams = {"crl"}
  MaxDev = 1
  Each = TRUE
