SPECIFICATION StrSpec
INVARIANT StrEmit
CONSTANTS
  Fams = {"cert"}
  MaxDev = 1
  Each = FALSE
  Longest = 6
  Mail = TRUE
