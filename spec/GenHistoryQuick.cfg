SPECIFICATION Spec
VIEW View
INVARIANTS Consistent Sound Invertible Returns
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Pieces <- QuickPieces
  Replacements <- QuickReplacements
  Origins <- QuickOrigins
  MaxLen = 3
  MaxSteps = 3
  MaxDepth = 5
  WithGroups = TRUE
  WithFile = TRUE
