SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Fams = {"csr"}
  MaxDev = 3
  Each = FALSE
