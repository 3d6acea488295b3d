SPECIFICATION Spec
CONSTANTS
  MaxTo = 8
  MaxSteps = 8
  Generate = TRUE
INVARIANTS SamePoint Emit
PROPERTIES Forward RefusedUnchanged
CHECK_DEADLOCK FALSE
