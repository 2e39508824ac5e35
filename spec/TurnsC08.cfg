SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"encrypt"}
