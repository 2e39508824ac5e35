SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"on", "mult", "base", "add"}
