SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Fams = {"crl"}
  MaxDev = 3
  Each = FALSE
