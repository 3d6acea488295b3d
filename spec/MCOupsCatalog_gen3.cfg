SPECIFICATION Spec
CONSTANTS
  Shape = 3
  Depth = 7
  Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
