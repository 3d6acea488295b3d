SPECIFICATION Spec
CONSTANTS
  TMax = 24
  NMax = 9
  ChunkMax = 4
  Periods = {2, 3, 4}
  SnapPeriods = {1, 2, 3}
  Lists = 1
  Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
