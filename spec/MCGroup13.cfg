SPECIFICATION Spec
CONSTANT p = 13
INVARIANTS Closed Commutes Associates Neutral Doubles Multiples Order Jacobian
