SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Kinds = {"sig"}
  Deep = TRUE
