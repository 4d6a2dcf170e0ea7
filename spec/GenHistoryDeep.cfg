SPECIFICATION Spec
VIEW View
INVARIANTS Consistent Sound Invertible Returns
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Pieces <- DeepPieces
  Replacements <- DeepReplacements
  Origins <- DeepOrigins
  MaxLen = 4
  MaxSteps = 3
  MaxDepth = 5
  WithGroups = TRUE
  WithFile = TRUE
