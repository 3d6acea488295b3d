SPECIFICATION Spec
CONSTANTS
  Depths = {1, 2, 3}
  Types = {"i", "n"}
  NCols = 2
  Generate = TRUE
INVARIANTS Acceptable OnlyThese ConformTwice ExpandSound RecordedAsIs Emit
CHECK_DEADLOCK FALSE
