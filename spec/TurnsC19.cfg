SPECIFICATION Spec
INVARIANT Emit
CONSTANT Ops = {"checksig", "fromobj", "crlobj"}
