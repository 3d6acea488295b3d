SPECIFICATION Spec
CONSTANTS
  TMax = 5
  NMax = 4
  ChunkMax = 3
  Periods = {2, 3}
  SnapPeriods = {1, 2, 3}
  Lists = 1
  Gen = FALSE
VIEW View
INVARIANTS ChainedBins ChainedSnaps NoBad EachRowOnce SumKept EndsNotNull InBounds SnapOnEnd
CHECK_DEADLOCK FALSE
