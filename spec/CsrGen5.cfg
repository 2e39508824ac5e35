SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Fams = {"csr"}
  MaxDev = 5
  Each = FALSE
