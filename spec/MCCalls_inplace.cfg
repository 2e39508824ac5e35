SPECIFICATION Spec
INVARIANT Observable
PROPERTY Refines
CONSTANTS
  Threads = {t1, t2}
  Ops = {"a", "b"}
  MaxCalls = 5
  Owners = TRUE
  Discipline = "inplace"
  t1 = t1
  t2 = t2
