SPECIFICATION Spec
CONSTANT p = 11
INVARIANTS Closed Commutes Associates Neutral Doubles Multiples Order Jacobian
