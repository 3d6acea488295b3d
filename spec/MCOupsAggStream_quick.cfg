SPECIFICATION Spec
CONSTANTS
  Scenarios <- QuickScenarios
  MaxCalls = 2
  MaxCrash = 1
  MaxFail = 1
  MaxChunk = 2
  MaxNew = 1
  Generate = FALSE
INVARIANTS Recorded SameRestart EachRowOnce PostOnce RefusedRightly
CHECK_DEADLOCK FALSE
