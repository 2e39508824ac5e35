SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxDev = 1
  Each = TRUE
  Bases = {"p256", "rsa"}
  Within = {"certs", "keys", "cattrs", "kattrs", "safes", "key"}
