SPECIFICATION Spec
CONSTANTS
  Depths = {1, 2, 3}
  Types = {"i", "n"}
  NCols = 2
  Generate = FALSE
INVARIANTS Acceptable OnlyThese ConformTwice ExpandSound RecordedAsIs
CHECK_DEADLOCK FALSE
