SPECIFICATION Spec
CONSTANTS
  Scenarios <- AllScenarios
  MaxCalls = 3
  MaxCrash = 1
  MaxFail = 1
  MaxChunk = 1
  MaxNew = 1
  Generate = FALSE
INVARIANTS Recorded SameRestart EachRowOnce PostOnce RefusedRightly
CHECK_DEADLOCK FALSE
