SPECIFICATION Spec
CONSTANTS
  TMax = 4
  MaxCalls = 3
  MaxRows = 2
  Generate = FALSE
INVARIANTS SameRefusal SameResults PointsFinal EndsOnce
CHECK_DEADLOCK FALSE
VIEW View
