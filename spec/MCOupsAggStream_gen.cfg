SPECIFICATION Spec
CONSTANTS
  Scenarios <- AllScenarios
  MaxCalls = 4
  MaxCrash = 2
  MaxFail = 2
  MaxChunk = 3
  MaxNew = 4
  Generate = TRUE
INVARIANTS Recorded SameRestart EachRowOnce PostOnce RefusedRightly Emit
CHECK_DEADLOCK FALSE
