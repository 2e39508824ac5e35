SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Kinds = {"csr"}
  Deep = FALSE
