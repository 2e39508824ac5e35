SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Kinds = {"crl"}
  Deep = FALSE
