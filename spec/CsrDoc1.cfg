SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Fams = {"csr"}
  MaxDev = 1
  Each = TRUE
