SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxBags = 1
  MaxAttrs = 2
  MaxUnits = 2
  Units = {0, 65, 233, 20013, 55357, 56832, 65535}
  Each = TRUE
