SPECIFICATION StrSpec
INVARIANT StrEmit
CONSTANTS
  Fams = {"cert"}
  MaxDev = 1
  Each = TRUE
  Longest = 2
  Mail = FALSE
