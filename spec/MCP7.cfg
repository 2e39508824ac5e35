SPECIFICATION Spec
INVARIANT Established
INVARIANT NothingFromNothing
INVARIANT EveryOne
INVARIANT Brittle
CONSTANTS
  MaxSigned = 2
  MaxSigners = 1
