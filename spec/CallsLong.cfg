SPECIFICATION Spec
INVARIANTS Kept Emit
CONSTANTS
  NThreads = 6
  NOps = 420
  Calls0 = 120
  Spans = {1, 3, 40, 420}
  Walk = FALSE
