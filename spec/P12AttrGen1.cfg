SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxBags = 1
  MaxAttrs = 1
  MaxUnits = 2
  Units = {0, 10, 65, 58, 233, 8364, 20013, 55357, 56832, 65279, 65533, 65535}
  Each = TRUE
