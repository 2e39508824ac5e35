SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"verify", "verifydig"}
