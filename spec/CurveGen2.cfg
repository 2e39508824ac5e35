SPECIFICATION Spec
INVARIANT Emit
CONSTANT Full = TRUE
