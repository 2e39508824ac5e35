SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxEdits = 5
