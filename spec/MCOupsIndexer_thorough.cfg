SPECIFICATION Spec
CONSTANTS
  Big = TRUE
INVARIANTS FromPath FromStr Depth NoEmptyDir Injective Tight
CHECK_DEADLOCK FALSE
