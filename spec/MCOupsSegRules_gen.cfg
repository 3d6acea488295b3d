SPECIFICATION Spec
CONSTANTS
  TMax = 7
  MaxCalls = 4
  MaxRows = 3
  Generate = TRUE
INVARIANTS SameResults PointsFinal EndsOnce Emit
CHECK_DEADLOCK FALSE

