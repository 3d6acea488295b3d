SPECIFICATION Spec
CONSTANTS
  TMax = 3
  MaxCalls = 2
  MaxRows = 2
  Generate = FALSE
INVARIANTS SameRefusal SameResults PointsFinal EndsOnce
CHECK_DEADLOCK FALSE
VIEW View
