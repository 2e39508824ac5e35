SPECIFICATION Spec
INVARIANT Emit
CONSTANT Full = FALSE
