SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"csrobj"}
