SPECIFICATION Spec
CONSTANTS
  Shape = 3
  Depth = 4
  Gen = FALSE
INVARIANTS NoBad KeysHaveDirs NoStray DirsClosed Forgotten MdHistory
CHECK_DEADLOCK FALSE
