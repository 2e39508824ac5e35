SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxEdits = 1
