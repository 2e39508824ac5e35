SPECIFICATION Spec
INVARIANT Established
INVARIANT NothingFromNothing
INVARIANT EveryOne
INVARIANT Brittle
CONSTANTS
  MaxSigned = 1
  MaxSigners = 2
