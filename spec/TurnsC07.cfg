SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"digest"}
