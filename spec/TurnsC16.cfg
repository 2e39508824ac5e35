SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"p12"}
