SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Fams = {"crl"}
  MaxDev = 5
  Each = FALSE
