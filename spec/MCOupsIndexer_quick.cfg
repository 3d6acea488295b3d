SPECIFICATION Spec
CONSTANTS
  Big = FALSE
INVARIANTS FromPath FromStr Depth NoEmptyDir Injective Tight
CHECK_DEADLOCK FALSE
