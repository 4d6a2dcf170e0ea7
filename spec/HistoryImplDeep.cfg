SPECIFICATION Spec
VIEW View
INVARIANTS SameText SameFlag SameExtent
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Design <- AllDecisions
  Pieces <- Combining
  Origins <- Starting
  MaxLen = 3
  MaxSteps = 2
