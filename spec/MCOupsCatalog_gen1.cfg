SPECIFICATION Spec
CONSTANTS
  Shape = 1
  Depth = 7
  Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
