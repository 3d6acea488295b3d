SPECIFICATION Spec
CONSTANTS
  MaxTo = 4
  MaxSteps = 1
  Generate = FALSE
INVARIANTS SamePoint
PROPERTIES Forward RefusedUnchanged
CHECK_DEADLOCK FALSE
