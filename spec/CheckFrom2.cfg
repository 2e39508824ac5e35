SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Kinds = {"from"}
  Deep = TRUE
