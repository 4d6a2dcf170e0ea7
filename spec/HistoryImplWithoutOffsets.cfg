SPECIFICATION Spec
VIEW View
INVARIANTS SameText SameFlag SameExtent
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Design <- WithoutOffsets
  Pieces <- Fewer
  Origins <- Starting
  MaxLen = 3
  MaxSteps = 2
