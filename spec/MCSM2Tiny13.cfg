SPECIFICATION Spec
CONSTANTS
  p = 13
  b = 1
  n = 19
  Gx = 0
  Gy = 1
INVARIANTS Verifies Ranges Determined NoSigOnError Exact Reasons
