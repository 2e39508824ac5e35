SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"p7obj"}
