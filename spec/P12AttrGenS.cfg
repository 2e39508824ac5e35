SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxBags = 3
  MaxAttrs = 4
  MaxUnits = 4
  Units = {0, 10, 13, 32, 34, 44, 58, 65, 92, 127, 128, 233, 255, 256, 8364, 20013, 55296, 55357, 56319, 56320, 56832, 57343, 57344, 65279, 65533, 65534, 65535}
  Each = FALSE
