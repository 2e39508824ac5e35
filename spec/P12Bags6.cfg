SPECIFICATION Spec
INVARIANTS Sound Complete Emit
PROPERTY Sticky
CONSTANTS
  MaxLen = 6
