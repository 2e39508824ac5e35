SPECIFICATION Spec
CONSTANT p = 7
INVARIANTS Closed Commutes Associates Neutral Doubles Multiples Order Jacobian
