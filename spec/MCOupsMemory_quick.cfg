SPECIFICATION Spec
CONSTANTS
  MaxChunks = 4
  MaxOver = 2
  Limits = {0, 1, 2, 3, 5, 8}
  MaxCalls = 2
INVARIANTS WithinLimit NothingLost
CHECK_DEADLOCK FALSE
