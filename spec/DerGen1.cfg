SPECIFICATION Spec
INVARIANTS Unique PrefixFree Written Emit
CONSTANTS
  MaxOctets = 3
  MaxNodes = 3
  Octets = {0, 1, 2, 3, 4, 5, 6, 31, 48, 49, 127, 128, 129, 130, 132, 136, 160, 255}
  ConsTags = {48, 49, 160}
  LeafTags = {2, 3, 4, 6, 5}
  Leaves <- SomeLeaves
