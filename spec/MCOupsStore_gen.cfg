SPECIFICATION Spec
CONSTANTS
  Values = 5
  DVals = 1
  MaxLen = 4
  Depth = 5
  Sizes = {1, 2, 3, 4, 5}
  NIrgs = {0, 1, 2}
  Dups = {"none", "o", "d", "all"}
  OrdModes = {"always", "mixed"}
  Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
