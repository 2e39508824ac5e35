SPECIFICATION Spec
CONSTANTS
  p = 11
  b = 10
  n = 7
  Gx = 2
  Gy = 1
INVARIANTS Verifies Ranges Determined NoSigOnError Exact Reasons
