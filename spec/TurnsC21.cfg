SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"crlobj"}
