SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"parse"}
