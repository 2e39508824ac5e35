SPECIFICATION Spec
CONSTANT p = 17
INVARIANTS Closed Commutes Associates Neutral Doubles Multiples Order Jacobian
