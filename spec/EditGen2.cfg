SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Steps = 2
  MaxAt = 0
  MaxOctet = 0
  Near = 60
