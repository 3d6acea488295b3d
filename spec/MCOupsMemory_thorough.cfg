SPECIFICATION Spec
CONSTANTS
  MaxChunks = 6
  MaxOver = 2
  Limits = {0, 1, 3, 6}
  MaxCalls = 2
INVARIANTS WithinLimit NothingLost
CHECK_DEADLOCK FALSE
