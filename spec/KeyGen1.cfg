SPECIFICATION Spec
INVARIANTS Emit Agree
CONSTANTS
  MaxDev = 1
  Each = TRUE
