SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"marshal"}
