SPECIFICATION Spec
CONSTANTS
  Values = 2
  DVals = 1
  MaxLen = 2
  Depth = 2
  Sizes = {1, 2}
  NIrgs = {0, 1}
  Dups = {"none", "d", "all"}
  OrdModes = {"always", "mixed"}
  Gen = FALSE
INVARIANTS NoBad HistRows HistOrder HistDup NoEmptyRg
CHECK_DEADLOCK FALSE
