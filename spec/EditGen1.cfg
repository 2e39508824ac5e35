SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Steps = 1
  MaxAt = 150
  MaxOctet = 500
  Near = 0
