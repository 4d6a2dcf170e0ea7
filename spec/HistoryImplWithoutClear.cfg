SPECIFICATION Spec
VIEW View
INVARIANTS SameText SameFlag SameExtent
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Design <- WithoutClear
  Pieces <- Fewer
  Origins <- Starting
  MaxLen = 3
  MaxSteps = 2
