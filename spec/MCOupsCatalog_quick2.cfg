SPECIFICATION Spec
CONSTANTS
  Shape = 2
  Depth = 3
  Gen = FALSE
INVARIANTS NoBad KeysHaveDirs NoStray DirsClosed Forgotten MdHistory
CHECK_DEADLOCK FALSE
