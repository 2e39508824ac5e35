SPECIFICATION Spec
CONSTANTS
  p = 23
  b = 15
  n = 17
  Gx = 1
  Gy = 6
INVARIANTS Verifies Ranges Determined NoSigOnError Exact Reasons
