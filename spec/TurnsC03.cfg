SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"sign", "signdig"}
