SPECIFICATION Spec
INVARIANTS Emit Agree
CONSTANTS
  MaxDev = 2
  Each = TRUE
