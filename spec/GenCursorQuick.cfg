SPECIFICATION Spec
VIEW View
INVARIANTS Contained StickyHolds
CHECK_DEADLOCK FALSE
CONSTANTS
  FileNames = {"A", "B"}
  Pieces <- QuickPieces
  MaxPieces = 4
  WithOutside = TRUE
