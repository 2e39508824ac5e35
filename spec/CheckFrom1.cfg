SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Kinds = {"from"}
  Deep = FALSE
