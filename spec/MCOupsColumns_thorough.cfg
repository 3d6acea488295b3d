SPECIFICATION Spec
CONSTANTS
  Depths = {1, 2}
  Types = {"i", "n"}
  NCols = 3
  Generate = FALSE
INVARIANTS Acceptable OnlyThese ConformTwice ExpandSound RecordedAsIs
CHECK_DEADLOCK FALSE
