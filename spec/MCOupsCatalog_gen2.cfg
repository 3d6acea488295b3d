SPECIFICATION Spec
CONSTANTS
  Shape = 2
  Depth = 7
  Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
