SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"decrypt"}
