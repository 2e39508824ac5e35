SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  MaxDev = 2
  Each = TRUE
  Bases = {"p256", "rsa"}
  Within = {"certs", "keys", "cattrs", "kattrs", "safes", "key"}
