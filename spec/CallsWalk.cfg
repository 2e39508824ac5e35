SPECIFICATION Spec
INVARIANTS Kept Emit
CONSTANTS
  NThreads = 6
  NOps = 420
  Calls0 = 0
  Spans = {1}
  Walk = TRUE
