SPECIFICATION Spec
CONSTANTS
  BlockSize = 4
  Objects = {o1, o2}
  MaxLen = 5
  Alphabet = {0, 1}
INVARIANTS TypeOK DigestInv SumInv PadInjective
PROPERTIES Isolated SumReadOnly
