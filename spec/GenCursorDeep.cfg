SPECIFICATION Spec
VIEW View
INVARIANTS Contained StickyHolds
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Pieces <- DeepPieces
  MaxPieces = 5
  WithOutside = TRUE
